From 8118a615ad5cc4d943868cfa2cf294cc100439d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 01/23] fix: keep finite values out of the infinity branch of
 binned sums and dot products

When a block holds an infinity, the finite values of that block were added to
the accumulator too. Two large finite values can overflow to an infinity of the
other sign, so the result was NaN or an infinity depending on the order.
Only infinite and NaN terms are added now.
---
 src/binnedBLAS/cmcdotc.ccog | 19 +++++++++++++++++--
 src/binnedBLAS/cmcdotu.ccog | 19 +++++++++++++++++--
 src/binnedBLAS/cmcsum.ccog  |  8 ++++++--
 src/binnedBLAS/dmddot.ccog  |  6 +++++-
 src/binnedBLAS/dmdsum.ccog  |  4 +++-
 src/binnedBLAS/smsdot.ccog  |  6 +++++-
 src/binnedBLAS/smssum.ccog  |  4 +++-
 src/binnedBLAS/zmzdotc.ccog | 19 +++++++++++++++++--
 src/binnedBLAS/zmzdotu.ccog | 19 +++++++++++++++++--
 src/binnedBLAS/zmzsum.ccog  |  8 ++++++--
 10 files changed, 96 insertions(+), 16 deletions(-)

diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 9eddafc..7240c1c 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -58,6 +58,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, term
  */
 void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
   float amaxm[2];
+  float prod;
   int i, j;
   int N_block = N_block_MAX;
   int deposits = 0;
@@ -72,12 +73,26 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] + x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        prod = x[j * 2 * incX] * y[j * 2 * incY];
+        if (ISNANINFF(prod)){
+          priZ[0] += prod;
+        }
+        prod = x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINFF(prod)){
+          priZ[0] += prod;
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] - x[j * 2 * incX + 1] * y[j * 2 * incY];
+        prod = x[j * 2 * incX] * y[j * 2 * incY + 1];
+        if (ISNANINFF(prod)){
+          priZ[1] += prod;
+        }
+        prod = x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINFF(prod)){
+          priZ[1] -= prod;
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index d1b256d..80ef05b 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -58,6 +58,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, term
  */
 void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
   float amaxm[2];
+  float prod;
   int i, j;
   int N_block = N_block_MAX;
   int deposits = 0;
@@ -72,12 +73,26 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] - x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        prod = x[j * 2 * incX] * y[j * 2 * incY];
+        if (ISNANINFF(prod)){
+          priZ[0] += prod;
+        }
+        prod = x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINFF(prod)){
+          priZ[0] -= prod;
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] + x[j * 2 * incX + 1] * y[j * 2 * incY];
+        prod = x[j * 2 * incX] * y[j * 2 * incY + 1];
+        if (ISNANINFF(prod)){
+          priZ[1] += prod;
+        }
+        prod = x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINFF(prod)){
+          priZ[1] += prod;
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/cmcsum.ccog b/src/binnedBLAS/cmcsum.ccog
index 2c599fd..5ba386c 100644
--- a/src/binnedBLAS/cmcsum.ccog
+++ b/src/binnedBLAS/cmcsum.ccog
@@ -70,12 +70,16 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
 
     if (isinf(amax[0]) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += x[j * 2 * incX];
+        if (ISNANINFF(x[j * 2 * incX])){
+          priY[0] += x[j * 2 * incX];
+        }
       }
     }
     if (isinf(amax[1]) || isinf(priY[1])){
       for (j = 0; j < N_block; j++){
-        priY[1] += x[j * 2 * incX + 1];
+        if (ISNANINFF(x[j * 2 * incX + 1])){
+          priY[1] += x[j * 2 * incX + 1];
+        }
       }
     }
     if (isnan(priY[0]) && isnan(priY[1])){
diff --git a/src/binnedBLAS/dmddot.ccog b/src/binnedBLAS/dmddot.ccog
index 2f38a52..16d6967 100644
--- a/src/binnedBLAS/dmddot.ccog
+++ b/src/binnedBLAS/dmddot.ccog
@@ -58,6 +58,7 @@ cog.out(generate.generate(blockSize.BlockSize("dmddot", "N_block_MAX", 32, termi
  */
 void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int incX, const double *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
   double amaxm;
+  double prod;
   int i, j;
   int N_block = N_block_MAX;
   int deposits = 0;
@@ -69,7 +70,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
 
     if (isinf(amaxm) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += X[j * incX] * Y[j * incY];
+        prod = X[j * incX] * Y[j * incY];
+        if (ISNANINF(prod)){
+          priZ[0] += prod;
+        }
       }
     }
     if (isnan(priZ[0])){
diff --git a/src/binnedBLAS/dmdsum.ccog b/src/binnedBLAS/dmdsum.ccog
index b67b791..b80ca38 100644
--- a/src/binnedBLAS/dmdsum.ccog
+++ b/src/binnedBLAS/dmdsum.ccog
@@ -67,7 +67,9 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
 
     if (isinf(amax) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += X[j * incX];
+        if (ISNANINF(X[j * incX])){
+          priY[0] += X[j * incX];
+        }
       }
     }
     if (isnan(priY[0])){
diff --git a/src/binnedBLAS/smsdot.ccog b/src/binnedBLAS/smsdot.ccog
index 408ef3f..0fd61f2 100644
--- a/src/binnedBLAS/smsdot.ccog
+++ b/src/binnedBLAS/smsdot.ccog
@@ -58,6 +58,7 @@ cog.out(generate.generate(blockSize.BlockSize("smsdot", "N_block_MAX", 32, termi
  */
 void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int incX, const float *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
   float amaxm;
+  float prod;
   int i, j;
   int N_block = N_block_MAX;
   int deposits = 0;
@@ -69,7 +70,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
 
     if (isinf(amaxm) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += X[j * incX] * Y[j * incY];
+        prod = X[j * incX] * Y[j * incY];
+        if (ISNANINFF(prod)){
+          priZ[0] += prod;
+        }
       }
     }
     if (isnan(priZ[0])){
diff --git a/src/binnedBLAS/smssum.ccog b/src/binnedBLAS/smssum.ccog
index 330aeaf..12926b9 100644
--- a/src/binnedBLAS/smssum.ccog
+++ b/src/binnedBLAS/smssum.ccog
@@ -68,7 +68,9 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
 
     if (isinf(amax) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += X[j * incX];
+        if (ISNANINFF(X[j * incX])){
+          priY[0] += X[j * incX];
+        }
       }
     }
     if (isnan(priY[0])){
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 2200f3a..f995901 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -58,6 +58,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, term
  */
 void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
   double amaxm[2];
+  double prod;
   int i, j;
   int N_block = N_block_MAX;
   int deposits = 0;
@@ -72,12 +73,26 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] + x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        prod = x[j * 2 * incX] * y[j * 2 * incY];
+        if (ISNANINF(prod)){
+          priZ[0] += prod;
+        }
+        prod = x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINF(prod)){
+          priZ[0] += prod;
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] - x[j * 2 * incX + 1] * y[j * 2 * incY];
+        prod = x[j * 2 * incX] * y[j * 2 * incY + 1];
+        if (ISNANINF(prod)){
+          priZ[1] += prod;
+        }
+        prod = x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINF(prod)){
+          priZ[1] -= prod;
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index cb2b75f..2bad19e 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -58,6 +58,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, term
  */
 void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
   double amaxm[2];
+  double prod;
   int i, j;
   int N_block = N_block_MAX;
   int deposits = 0;
@@ -72,12 +73,26 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] - x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        prod = x[j * 2 * incX] * y[j * 2 * incY];
+        if (ISNANINF(prod)){
+          priZ[0] += prod;
+        }
+        prod = x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINF(prod)){
+          priZ[0] -= prod;
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] + x[j * 2 * incX + 1] * y[j * 2 * incY];
+        prod = x[j * 2 * incX] * y[j * 2 * incY + 1];
+        if (ISNANINF(prod)){
+          priZ[1] += prod;
+        }
+        prod = x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINF(prod)){
+          priZ[1] += prod;
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/zmzsum.ccog b/src/binnedBLAS/zmzsum.ccog
index 168c2be..a7c5ea3 100644
--- a/src/binnedBLAS/zmzsum.ccog
+++ b/src/binnedBLAS/zmzsum.ccog
@@ -69,12 +69,16 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
 
     if (isinf(amax[0]) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += x[j * 2 * incX];
+        if (ISNANINF(x[j * 2 * incX])){
+          priY[0] += x[j * 2 * incX];
+        }
       }
     }
     if (isinf(amax[1]) || isinf(priY[1])){
       for (j = 0; j < N_block; j++){
-        priY[1] += x[j * 2 * incX + 1];
+        if (ISNANINF(x[j * 2 * incX + 1])){
+          priY[1] += x[j * 2 * incX + 1];
+        }
       }
     }
     if (isnan(priY[0]) && isnan(priY[1])){
-- 
2.43.0


From 2034b3b97598016a19774d69fbfd46c0bc7844af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 02/23] fix: do not exceed the endurance within one block of
 complex dot products

A complex dot product deposits two products per element into each component,
but a block could hold as many elements as the endurance allows deposits.
---
 src/binnedBLAS/cmcdotc.ccog | 2 +-
 src/binnedBLAS/cmcdotu.ccog | 2 +-
 src/binnedBLAS/zmzdotc.ccog | 2 +-
 src/binnedBLAS/zmzdotu.ccog | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 7240c1c..827f202 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -60,7 +60,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
   float amaxm[2];
   float prod;
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_SBENDURANCE/2);
   int deposits = 0;
 
   const float *x = (const float*)X;
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index 80ef05b..1ffdc23 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -60,7 +60,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
   float amaxm[2];
   float prod;
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_SBENDURANCE/2);
   int deposits = 0;
 
   const float *x = (const float*)X;
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index f995901..a032718 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -60,7 +60,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
   double amaxm[2];
   double prod;
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_DBENDURANCE/2);
   int deposits = 0;
 
   const double *x = (const double*)X;
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index 2bad19e..1a8806a 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -60,7 +60,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
   double amaxm[2];
   double prod;
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_DBENDURANCE/2);
   int deposits = 0;
 
   const double *x = (const double*)X;
-- 
2.43.0


From d6c8cd3be02324f9ed91731a308153e58e90d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 03/23] fix: step complex carry vectors by two reals in
 zzmconv_sub and ccmconv_sub

The carry stride of one component is inccarX * 2, not inccarX + 1; every call
with inccarX other than 1 read the wrong carries.
---
 src/binned/ccmconv_sub.c | 4 ++--
 src/binned/zzmconv_sub.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binned/ccmconv_sub.c b/src/binned/ccmconv_sub.c
index 20bf1d6..7ecafa2 100644
--- a/src/binned/ccmconv_sub.c
+++ b/src/binned/ccmconv_sub.c
@@ -16,6 +16,6 @@
  * @date   27 Apr 2015
  */
 void binned_ccmconv_sub(const int fold, const float *priX, const int incpriX, const float *carX, const int inccarX, void *conv) {
-  ((float*)conv)[0] = binned_ssmconv(fold, priX, incpriX * 2, carX, inccarX + 1);
-  ((float*)conv)[1] = binned_ssmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX + 1);
+  ((float*)conv)[0] = binned_ssmconv(fold, priX, incpriX * 2, carX, inccarX * 2);
+  ((float*)conv)[1] = binned_ssmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX * 2);
 }
diff --git a/src/binned/zzmconv_sub.c b/src/binned/zzmconv_sub.c
index 0baccc1..c4f73c7 100644
--- a/src/binned/zzmconv_sub.c
+++ b/src/binned/zzmconv_sub.c
@@ -16,6 +16,6 @@
  * @date   27 Apr 2015
  */
 void binned_zzmconv_sub(const int fold, const double *priX, const int incpriX, const double *carX, const int inccarX, void *conv) {
-  ((double*)conv)[0] = binned_ddmconv(fold, priX, incpriX * 2, carX, inccarX + 1);
-  ((double*)conv)[1] = binned_ddmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX + 1);
+  ((double*)conv)[0] = binned_ddmconv(fold, priX, incpriX * 2, carX, inccarX * 2);
+  ((double*)conv)[1] = binned_ddmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX * 2);
 }
-- 
2.43.0


From e5366150cef1265f75a51c6f91fe5f0c4b510bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 04/23] fix: bound the column-major conjugate transposed gemv
 block by M

The inner product of the conjugate transpose runs over the M rows of A; with
N - j it read past the end of A and X, or dropped terms.
---
 src/binnedBLAS/cbcgemv.ccog | 2 +-
 src/binnedBLAS/zbzgemv.ccog | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binnedBLAS/cbcgemv.ccog b/src/binnedBLAS/cbcgemv.ccog
index 22bbbae..95bc96c 100644
--- a/src/binnedBLAS/cbcgemv.ccog
+++ b/src/binnedBLAS/cbcgemv.ccog
@@ -215,7 +215,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
           for(i = 0; i < N; i += Y_BLOCK){
             for(j = 0; j < M; j += X_BLOCK){
               for(ii = i; ii < N && ii < i + Y_BLOCK; ii++){
-                binnedBLAS_cbcdotc(fold, MIN(X_BLOCK, N - j), ((float*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_cbnum(fold));
+                binnedBLAS_cbcdotc(fold, MIN(X_BLOCK, M - j), ((float*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_cbnum(fold));
               }
             }
           }
diff --git a/src/binnedBLAS/zbzgemv.ccog b/src/binnedBLAS/zbzgemv.ccog
index e99b85d..bd17bb4 100644
--- a/src/binnedBLAS/zbzgemv.ccog
+++ b/src/binnedBLAS/zbzgemv.ccog
@@ -215,7 +215,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
           for(i = 0; i < N; i += Y_BLOCK){
             for(j = 0; j < M; j += X_BLOCK){
               for(ii = i; ii < N && ii < i + Y_BLOCK; ii++){
-                binnedBLAS_zbzdotc(fold, MIN(X_BLOCK, N - j), ((double*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_zbnum(fold));
+                binnedBLAS_zbzdotc(fold, MIN(X_BLOCK, M - j), ((double*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_zbnum(fold));
               }
             }
           }
-- 
2.43.0


From 0e25b491e27ed42699e7e832f1578cac9205e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 05/23] fix: return a double from UFP

UFP returned float, so unit-in-first-place of a double outside the range of
float came back as zero or infinity from binned_ufp and in printed values.
---
 src/common/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/common.h b/src/common/common.h
index d8b956a..4f9e120 100644
--- a/src/common/common.h
+++ b/src/common/common.h
@@ -26,7 +26,7 @@ typedef union int_float_ {
   uint32_t i;
 } int_float;
 
-inline float UFP(double X) {
+inline double UFP(double X) {
   long_double tmp_UFP;
   tmp_UFP.d = X;
   tmp_UFP.l &= (2ull * DBL_MAX_EXP - 1) << (DBL_MANT_DIG - 1);
-- 
2.43.0


From ea59d06568d95aceeb78eb5cb9d077bb9c01dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 06/23] fix: free the temporary of dmdmaddsq and smsmaddsq

---
 src/binned/dmdmaddsq.c | 3 +++
 src/binned/smsmaddsq.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/binned/dmdmaddsq.c b/src/binned/dmdmaddsq.c
index 5a3b854..c068288 100644
--- a/src/binned/dmdmaddsq.c
+++ b/src/binned/dmdmaddsq.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include <binned.h>
 
 /**
@@ -36,6 +38,7 @@ double binned_dmdmaddsq(const int fold, const double scaleX, const double *priX,
     binned_dmdmset(fold, priX, incpriX, carX, inccarX, tmp_X, 1, tmp_X + fold, 1);
     binned_dmdrescale(fold, scaleY, scaleX, tmp_X, 1, tmp_X + fold, 1);
     binned_dmdmadd(fold, tmp_X, 1, tmp_X + fold, 1, priY, incpriY, carY, inccarY);
+    free(tmp_X);
     return scaleY;
   }
 }
diff --git a/src/binned/smsmaddsq.c b/src/binned/smsmaddsq.c
index 006c6ac..b48d124 100644
--- a/src/binned/smsmaddsq.c
+++ b/src/binned/smsmaddsq.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include <binned.h>
 
 /**
@@ -37,6 +39,7 @@ float binned_smsmaddsq(const int fold, const float scaleX, const float *priX, co
     binned_smsmset(fold, priX, incpriX, carX, inccarX, tmp_X, 1, tmp_X + fold, 1);
     binned_smsrescale(fold, scaleY, scaleX, tmp_X, 1, tmp_X + fold, 1);
     binned_smsmadd(fold, tmp_X, 1, tmp_X + fold, 1, priY, incpriY, carY, inccarY);
+    free(tmp_X);
     return scaleY;
   }
 }
-- 
2.43.0


From 88399880e8cd74663e74adcd6a3f73ddd849d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 07/23] fix: scale the imaginary part by the real part of alpha
 in complex gemm

In column-major order with alpha other than one, the imaginary part of alpha*A
was computed with alpha[1] twice in four of the nine cases.
---
 src/binnedBLAS/cbcgemm.ccog | 8 ++++----
 src/binnedBLAS/zbzgemm.ccog | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/binnedBLAS/cbcgemm.ccog b/src/binnedBLAS/cbcgemm.ccog
index 13365a6..f94071c 100644
--- a/src/binnedBLAS/cbcgemm.ccog
+++ b/src/binnedBLAS/cbcgemm.ccog
@@ -652,7 +652,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
               }
             }
             ldbufa = K;
@@ -751,7 +751,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -796,7 +796,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -847,7 +847,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
diff --git a/src/binnedBLAS/zbzgemm.ccog b/src/binnedBLAS/zbzgemm.ccog
index 5a9c958..61f245f 100644
--- a/src/binnedBLAS/zbzgemm.ccog
+++ b/src/binnedBLAS/zbzgemm.ccog
@@ -652,7 +652,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
               }
             }
             ldbufa = K;
@@ -751,7 +751,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -796,7 +796,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -847,7 +847,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
-- 
2.43.0


From 9cc94001a8068584b711e0e6de3b4df6a9b222a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 08/23] fix: keep the scale of the result in the MPI sum of
 squares reduction

The updated scale returned by dmdmaddsq and smsmaddsq was dropped, so the
reduced sum of squares kept the scale of one operand.
---
 src/binnedMPI/DBDBADDSQ.ccog | 2 +-
 src/binnedMPI/SBSBADDSQ.ccog | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binnedMPI/DBDBADDSQ.ccog b/src/binnedMPI/DBDBADDSQ.ccog
index 00fd85c..6685a7c 100644
--- a/src/binnedMPI/DBDBADDSQ.ccog
+++ b/src/binnedMPI/DBDBADDSQ.ccog
@@ -9,7 +9,7 @@
 static inline void dbdbaddsqv(const int fold, const int N, const double *X, double *Y){
   int i;
   for(i = 0; i < N; i++, X += binned_dbnum(fold) + 1, Y += binned_dbnum(fold) + 1){
-    binned_dmdmaddsq(fold, X[0], (double_binned*)(X + 1), 1, (double_binned*)(X + 1 + fold), 1, Y[0], (double_binned*)(Y + 1), 1, (double_binned*)(Y + 1 + fold), 1);
+    Y[0] = binned_dmdmaddsq(fold, X[0], (double_binned*)(X + 1), 1, (double_binned*)(X + 1 + fold), 1, Y[0], (double_binned*)(Y + 1), 1, (double_binned*)(Y + 1 + fold), 1);
   }
 }
 
diff --git a/src/binnedMPI/SBSBADDSQ.ccog b/src/binnedMPI/SBSBADDSQ.ccog
index 20e0137..b531bb9 100644
--- a/src/binnedMPI/SBSBADDSQ.ccog
+++ b/src/binnedMPI/SBSBADDSQ.ccog
@@ -8,7 +8,7 @@
 static inline void sbsbaddsqv(const int fold, const int N, const float *X, float *Y){
   int i;
   for(i = 0; i < N; i++, X += binned_dbnum(fold) + 1, Y += binned_dbnum(fold) + 1){
-    binned_smsmaddsq(fold, X[0], (float_binned*)(X + 1), 1, (float_binned*)(X + 1 + fold), 1, Y[0], (float_binned*)(Y + 1), 1, (float_binned*)(Y + 1 + fold), 1);
+    Y[0] = binned_smsmaddsq(fold, X[0], (float_binned*)(X + 1), 1, (float_binned*)(X + 1 + fold), 1, Y[0], (float_binned*)(Y + 1), 1, (float_binned*)(Y + 1 + fold), 1);
   }
 }
 
-- 
2.43.0


From 9f4eed67e40d6df2bc490a7686a3bb065703fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 09/23] fix: rescale the two components of a complex sum of
 squares separately

The underflow test read priY[i * incpriY], which belongs to another slot (or to
the other component), and one component was never tested, so a component whose
slots underflow was left without valid slots.
---
 src/binned/cmsrescale.c | 19 ++-----------------
 src/binned/zmdrescale.c | 19 ++-----------------
 2 files changed, 4 insertions(+), 34 deletions(-)

diff --git a/src/binned/cmsrescale.c b/src/binned/cmsrescale.c
index 628959d..b93a976 100644
--- a/src/binned/cmsrescale.c
+++ b/src/binned/cmsrescale.c
@@ -18,21 +18,6 @@
  * @date   19 Jun 2015
  */
 void binned_cmsrescale(const int fold, const float X, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
-  int i;
-  float rescaleY;
-
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
-    return;
-  }
-
-  rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
-  for(i = 0; i < fold; i++){
-    priY[i * 2 * incpriY] /= rescaleY;
-    priY[i * 2 * incpriY + 1] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
-      binned_cmsupdate(fold - i, 0.0, priY + i * 2 * incpriY, incpriY, carY + i * 2 * inccarY, inccarY);
-      return;
-    }
-  }
+  binned_smsrescale(fold, X, scaleY, priY, 2 * incpriY, carY, 2 * inccarY);
+  binned_smsrescale(fold, X, scaleY, priY + 1, 2 * incpriY, carY + 1, 2 * inccarY);
 }
diff --git a/src/binned/zmdrescale.c b/src/binned/zmdrescale.c
index 6c1542a..ce2c198 100644
--- a/src/binned/zmdrescale.c
+++ b/src/binned/zmdrescale.c
@@ -18,21 +18,6 @@
  * @date   1 Jun 2015
  */
 void binned_zmdrescale(const int fold, const double X, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
-  int i;
-  double rescaleY;
-
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
-    return;
-  }
-
-  rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
-  for(i = 0; i < fold; i++){
-    priY[i * 2 * incpriY] /= rescaleY;
-    priY[i * 2 * incpriY + 1] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
-      binned_zmdupdate(fold - i, 0.0, priY + i * 2 * incpriY, incpriY, carY + i * 2 * inccarY, inccarY);
-      break;
-    }
-  }
+  binned_dmdrescale(fold, X, scaleY, priY, 2 * incpriY, carY, 2 * inccarY);
+  binned_dmdrescale(fold, X, scaleY, priY + 1, 2 * incpriY, carY + 1, 2 * inccarY);
 }
-- 
2.43.0


From 40d327e73828d478c8bc12daebd967e18367aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 10/23] fix: leave infinite and NaN sums of squares alone when
 rescaling

When the square of the scale ratio overflowed, an infinity became NaN.
---
 src/binned/dmdrescale.c | 4 +++-
 src/binned/smsrescale.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/binned/dmdrescale.c b/src/binned/dmdrescale.c
index d18c8b6..2d95d34 100644
--- a/src/binned/dmdrescale.c
+++ b/src/binned/dmdrescale.c
@@ -1,5 +1,7 @@
 #include <binned.h>
 
+#include "../common/common.h"
+
 /**
  * @internal
  * @brief rescale manually specified binned double precision sum of squares
@@ -21,7 +23,7 @@ void binned_dmdrescale(const int fold, const double X, const double scaleY, doub
   int i;
   double rescaleY;
 
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
+  if(X == scaleY || X == 0.0 || scaleY == 0.0 || ISNANINF(priY[0])){
     return;
   }
 
diff --git a/src/binned/smsrescale.c b/src/binned/smsrescale.c
index 508fbf42..2a69dc6 100644
--- a/src/binned/smsrescale.c
+++ b/src/binned/smsrescale.c
@@ -1,5 +1,7 @@
 #include <binned.h>
 
+#include "../common/common.h"
+
 /**
  * @internal
  * @brief rescale manually specified binned single precision sum of squares
@@ -21,7 +23,7 @@ void binned_smsrescale(const int fold, const float X, const float scaleY, float
   int i;
   float rescaleY;
 
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
+  if(X == scaleY || X == 0.0 || scaleY == 0.0 || ISNANINFF(priY[0])){
     return;
   }
 
-- 
2.43.0


From 3479f0c1401f4ae0059f363db0ad2c6fe326c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 11/23] fix: treat denormal primaries as underflow when
 rescaling sums of squares

A primary scaled below the last bin does not always reach zero; a denormal one
is not a valid slot, and conversion read a wrong value from it.
---
 src/binned/dmdrescale.c | 5 ++++-
 src/binned/smsrescale.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/binned/dmdrescale.c b/src/binned/dmdrescale.c
index 2d95d34..073043d 100644
--- a/src/binned/dmdrescale.c
+++ b/src/binned/dmdrescale.c
@@ -1,3 +1,5 @@
+#include <float.h>
+
 #include <binned.h>
 
 #include "../common/common.h"
@@ -31,7 +33,8 @@ void binned_dmdrescale(const int fold, const double X, const double scaleY, doub
   rescaleY *= rescaleY;
   for(i = 0; i < fold; i++){
     priY[i * incpriY] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
+    if(priY[i * incpriY] < DBL_MIN){
+      priY[i * incpriY] = 0.0;
       binned_dmdupdate(fold - i, 0.0, priY + i * incpriY, incpriY, carY + i * inccarY, inccarY);
       return;
     }
diff --git a/src/binned/smsrescale.c b/src/binned/smsrescale.c
index 2a69dc6..f35546d 100644
--- a/src/binned/smsrescale.c
+++ b/src/binned/smsrescale.c
@@ -1,3 +1,5 @@
+#include <float.h>
+
 #include <binned.h>
 
 #include "../common/common.h"
@@ -31,7 +33,8 @@ void binned_smsrescale(const int fold, const float X, const float scaleY, float
   rescaleY *= rescaleY;
   for(i = 0; i < fold; i++){
     priY[i * incpriY] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
+    if(priY[i * incpriY] < FLT_MIN){
+      priY[i * incpriY] = 0.0;
       binned_smsupdate(fold - i, 0.0, priY + i * incpriY, incpriY, carY + i * inccarY, inccarY);
       return;
     }
-- 
2.43.0


From 10c2ffc1f098165a4d09c78488114c6a27836fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 12/23] fix: divide by the scale ratio twice when rescaling
 sums of squares

The square of the ratio overflows long before the rescaled values leave the
bins, so slices that a single pass keeps were dropped when the same data were
summed in pieces.
---
 src/binned/dmdrescale.c | 2 +-
 src/binned/smsrescale.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binned/dmdrescale.c b/src/binned/dmdrescale.c
index 073043d..13708fd 100644
--- a/src/binned/dmdrescale.c
+++ b/src/binned/dmdrescale.c
@@ -30,8 +30,8 @@ void binned_dmdrescale(const int fold, const double X, const double scaleY, doub
   }
 
   rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
   for(i = 0; i < fold; i++){
+    priY[i * incpriY] /= rescaleY;
     priY[i * incpriY] /= rescaleY;
     if(priY[i * incpriY] < DBL_MIN){
       priY[i * incpriY] = 0.0;
diff --git a/src/binned/smsrescale.c b/src/binned/smsrescale.c
index f35546d..8493fe6 100644
--- a/src/binned/smsrescale.c
+++ b/src/binned/smsrescale.c
@@ -30,8 +30,8 @@ void binned_smsrescale(const int fold, const float X, const float scaleY, float
   }
 
   rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
   for(i = 0; i < fold; i++){
+    priY[i * incpriY] /= rescaleY;
     priY[i * incpriY] /= rescaleY;
     if(priY[i * incpriY] < FLT_MIN){
       priY[i * incpriY] = 0.0;
-- 
2.43.0


From 5e987a174efa7893e7fb257717b2522423fa1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 13/23] fix: keep the summation error bound above the quantum
 of the lowest bin

---
 src/binned/dbbound.c | 2 +-
 src/binned/sbbound.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binned/dbbound.c b/src/binned/dbbound.c
index cbdeea4..25b7845 100644
--- a/src/binned/dbbound.c
+++ b/src/binned/dbbound.c
@@ -19,5 +19,5 @@
  * @date   31 Jul 2015
  */
 double binned_dbbound(const int fold, const int N, const double X, const double S) {
-  return MAX(fabs(X), ldexp(0.5, DBL_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * DBWIDTH + 1) * N + ((7.0 * DBL_EPSILON) / (1.0 - 6.0 * sqrt(DBL_EPSILON) - 7.0 * DBL_EPSILON)) * fabs(S);
+  return MAX(ldexp(fabs(X), (1 - fold) * DBWIDTH), ldexp(0.5, DBL_MAX_EXP - (binned_DBMAXINDEX + 1) * DBWIDTH + 1)) * N + ((7.0 * DBL_EPSILON) / (1.0 - 6.0 * sqrt(DBL_EPSILON) - 7.0 * DBL_EPSILON)) * fabs(S);
 }
diff --git a/src/binned/sbbound.c b/src/binned/sbbound.c
index 05ca953..7ee6a2c 100644
--- a/src/binned/sbbound.c
+++ b/src/binned/sbbound.c
@@ -23,5 +23,5 @@
  * @date   21 May 2015
  */
 float binned_sbbound(const int fold, const int N, const float X, const float S) {
-  return (float)(MAX(fabs((double)X), ldexp(0.5, FLT_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * SBWIDTH + 1) * N + ((7.0 * FLT_EPSILON) / (1.0 - 6.0 * sqrt((double)FLT_EPSILON) - 7.0 * FLT_EPSILON)) * fabs((double)S));
+  return (float)(MAX(ldexp(fabs((double)X), (1 - fold) * SBWIDTH), ldexp(0.5, FLT_MAX_EXP - (binned_SBMAXINDEX + 1) * SBWIDTH + 1)) * N + ((7.0 * FLT_EPSILON) / (1.0 - 6.0 * sqrt((double)FLT_EPSILON) - 7.0 * FLT_EPSILON)) * fabs((double)S));
 }
-- 
2.43.0


From da9fbf52115e4050596866ef17d57c83b815998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 14/23] fix: merge both parts of complex accumulators in the
 MPI ZBZBADD operator

The operator called the real vector addition, which leaves the second half
of every accumulator out and reads the first as a real accumulator.
---
 src/binnedMPI/ZBZBADD.ccog | 102 ++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 51 deletions(-)

diff --git a/src/binnedMPI/ZBZBADD.ccog b/src/binnedMPI/ZBZBADD.ccog
index 7441faf..03ea492 100644
--- a/src/binnedMPI/ZBZBADD.ccog
+++ b/src/binnedMPI/ZBZBADD.ccog
@@ -10,208 +10,208 @@ import cog
 from scripts import terminal
 for fold in range(2, terminal.get_dimaxindex() + 1):
   cog.outl("static void binnedMPI_zbzbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
-  cog.outl("  binned_dbdbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
+  cog.outl("  binned_zbzbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
   cog.outl("")
 ]]]*/
 static void binnedMPI_zbzbadd_2(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(2, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(2, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_3(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(3, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(3, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_4(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(4, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(4, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_5(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(5, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(5, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_6(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(6, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(6, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_7(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(7, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(7, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_8(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(8, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(8, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_9(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(9, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(9, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_10(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(10, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(10, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_11(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(11, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(11, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_12(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(12, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(12, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_13(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(13, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(13, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_14(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(14, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(14, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_15(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(15, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(15, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_16(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(16, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(16, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_17(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(17, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(17, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_18(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(18, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(18, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_19(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(19, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(19, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_20(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(20, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(20, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(21, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(21, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_22(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(22, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(22, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_23(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(23, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(23, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_24(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(24, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(24, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_25(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(25, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(25, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_26(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(26, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(26, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_27(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(27, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(27, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_28(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(28, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(28, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_29(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(29, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(29, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_30(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(30, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(30, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_31(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(31, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(31, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_32(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(32, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(32, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_33(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(33, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(33, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_34(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(34, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(34, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_35(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(35, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(35, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_36(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(36, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(36, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_37(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(37, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(37, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_38(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(38, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(38, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_39(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(39, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(39, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_40(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(40, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(40, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_41(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(41, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(41, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_42(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(42, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(42, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_43(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(43, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(43, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_44(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(44, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(44, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_45(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(45, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(45, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_46(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(46, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(46, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_47(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(47, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(47, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_48(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(48, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(48, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_49(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(49, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(49, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_50(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(50, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(50, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_51(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 //[[[end]]]
-- 
2.43.0


From ba0c2e3d55993bda0099b623a054ce80b48b1c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 15/23] fix: ignore blank lines in whitePrefix for bytes too

A blank bytes line compares unequal to '' on Python 3, so it cut the common
prefix down to nothing or raised an IndexError.
---
 scripts/cogapp/whiteutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cogapp/whiteutils.py b/scripts/cogapp/whiteutils.py
index 1c0f66c..30ef555 100644
--- a/scripts/cogapp/whiteutils.py
+++ b/scripts/cogapp/whiteutils.py
@@ -13,7 +13,7 @@ def whitePrefix(strings):
         in the argument list.
     """
     # Remove all blank lines from the list
-    strings = [s for s in strings if s.strip() != '']
+    strings = [s for s in strings if s.strip()]
 
     if not strings: return ''
 
-- 
2.43.0


From 8623449389e0ac68ea56c0be380c577df1f7a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 16/23] fix: rendering a code block must not change it

Every conversion to text appended another blank line to the includes.
---
 src/gen/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gen/utils.py b/src/gen/utils.py
index 2f508ab..547bca4 100644
--- a/src/gen/utils.py
+++ b/src/gen/utils.py
@@ -67,6 +67,5 @@ class CodeBlock(object):
     return block
 
   def __str__(self):
-    if self.includes:
-      self.includes.append("")
-    return "\n".join([str(block) for block in (self.includes + self.blocks)]) + "\n"
+    includes = self.includes + [""] if self.includes else []
+    return "\n".join([str(block) for block in (includes + self.blocks)]) + "\n"
-- 
2.43.0


From 8d3c687406f854d13c7bc16842b57ab37267277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 17/23] fix: apply --markers given on a line of a file list to
 the end-output patterns

---
 scripts/cogapp/cogapp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/cogapp/cogapp.py b/scripts/cogapp/cogapp.py
index 36f4f7b..a0c47ea 100644
--- a/scripts/cogapp/cogapp.py
+++ b/scripts/cogapp/cogapp.py
@@ -666,6 +666,7 @@ class Cog(Redirectable):
 
         self.options.parseArgs(args[1:])
         self.options.validate()
+        self._fixEndOutputPatterns()
 
         if args[0][0] == '@':
             if self.options.sOutputName:
@@ -675,6 +676,7 @@ class Cog(Redirectable):
             self.processOneFile(args[0])
 
         self.options = saved_options
+        self._fixEndOutputPatterns()
 
     def callableMain(self, argv):
         """ All of command-line cog, but in a callable form.
-- 
2.43.0


From 5812ada74955de8f3bc5333b8797577a0cc17169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 18/23] fix: keep generated output off an end-spec marker line
 that ends the file

---
 scripts/cogapp/cogapp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/cogapp/cogapp.py b/scripts/cogapp/cogapp.py
index a0c47ea..82b53dc 100644
--- a/scripts/cogapp/cogapp.py
+++ b/scripts/cogapp/cogapp.py
@@ -503,6 +503,10 @@ class Cog(Redirectable):
                     sGen = gen.evaluate(cog=self, globals=globals, fname=sFile)
                     sGen = self.suffixLines(sGen)
                     hasher.update(to_bytes(sGen))
+                    if sGen and not gen.markers[-1].endswith('\n') and not self.options.bDeleteCode:
+                        # The marker is the end of the file: keep the output
+                        # off its line.
+                        fOut.write('\n')
                     fOut.write(sGen)
                 newHash = hasher.hexdigest()
 
-- 
2.43.0


From 4da011faa72adc5079bc429cb4bf5b4d3560c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 19/23] fix: do not strip a marker line's prefix from
 single-line generator code

---
 scripts/cogapp/cogapp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/cogapp/cogapp.py b/scripts/cogapp/cogapp.py
index 82b53dc..32e093c 100644
--- a/scripts/cogapp/cogapp.py
+++ b/scripts/cogapp/cogapp.py
@@ -117,7 +117,11 @@ class CogGenerator(Redirectable):
         # If the markers and lines all have the same prefix
         # (end-of-line comment chars, for example),
         # then remove it from all the lines.
-        prefIn = commonPrefix(self.markers + self.lines)
+        # (A single-line generator has one marker line, from which its code
+        # has been cut already.)
+        prefIn = ''
+        if len(self.markers) > 1:
+            prefIn = commonPrefix(self.markers + self.lines)
         if prefIn:
             self.markers = [ l.replace(prefIn, '', 1) for l in self.markers ]
             self.lines = [ l.replace(prefIn, '', 1) for l in self.lines ]
-- 
2.43.0


From 7926427e08886cab3d383af860c4902f5591287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:19 +0000
Subject: [PATCH 20/23] fix: replacing a file with text its encoding cannot
 express no longer empties it

---
 scripts/cogapp/cogapp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/cogapp/cogapp.py b/scripts/cogapp/cogapp.py
index 32e093c..dc41fcf 100644
--- a/scripts/cogapp/cogapp.py
+++ b/scripts/cogapp/cogapp.py
@@ -585,6 +585,9 @@ class Cog(Redirectable):
             else:
                 # Can't write!
                 raise CogError("Can't overwrite %s" % sOldPath)
+        if PY3:
+            # Opening the file empties it: be sure we can write the text.
+            sNewText.encode(self.options.sEncoding)
         f = self.openOutputFile(sOldPath)
         f.write(sNewText)
         f.close()
-- 
2.43.0


From 0c1f3f73a640e91da48ce88e394f9f2c8ccd8fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 21/23] fix: matrix operations on matrices of more than 2^31
 numbers

Offsets were computed as products of ints, and overflowed for large
leading dimensions.
---
 src/binnedBLAS/cbcgemm.ccog | 23 ++++++++++++-----------
 src/binnedBLAS/cbcgemv.ccog | 21 +++++++++++----------
 src/binnedBLAS/dbdgemm.ccog | 17 +++++++++--------
 src/binnedBLAS/dbdgemv.ccog | 13 +++++++------
 src/binnedBLAS/sbsgemm.ccog | 17 +++++++++--------
 src/binnedBLAS/sbsgemv.ccog | 13 +++++++------
 src/binnedBLAS/zbzgemm.ccog | 23 ++++++++++++-----------
 src/binnedBLAS/zbzgemv.ccog | 21 +++++++++++----------
 src/reproBLAS/rcgemm.c      | 11 ++++++-----
 src/reproBLAS/rcgemv.c      |  3 ++-
 src/reproBLAS/rdgemm.c      | 11 ++++++-----
 src/reproBLAS/rdgemv.c      |  3 ++-
 src/reproBLAS/rsgemm.c      | 11 ++++++-----
 src/reproBLAS/rsgemv.c      |  3 ++-
 src/reproBLAS/rzgemm.c      | 11 ++++++-----
 src/reproBLAS/rzgemv.c      |  3 ++-
 16 files changed, 110 insertions(+), 94 deletions(-)

diff --git a/src/binnedBLAS/cbcgemm.ccog b/src/binnedBLAS/cbcgemm.ccog
index f94071c..4a5b7cb 100644
--- a/src/binnedBLAS/cbcgemm.ccog
+++ b/src/binnedBLAS/cbcgemm.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 
 #include "../common/common.h"
@@ -64,12 +65,12 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
              const void *alpha, const void *A, const int lda,
              const void *B, const int ldb,
              float_complex_binned *C, const int ldc){
-  int i;
-  int ii;
-  int k;
-  int kk;
-  int j;
-  int jj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t k;
+  ptrdiff_t kk;
+  ptrdiff_t j;
+  ptrdiff_t jj;
   float *bufA;
   int ldbufa;
   float *bufB;
@@ -93,7 +94,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
             bufA = (float*)A;
             ldbufa = lda;
           }else{
-            bufA = (float*)malloc(M * K * 2 * sizeof(float));
+            bufA = (float*)malloc((size_t)M * K * 2 * sizeof(float));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
@@ -648,7 +649,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
             bufA = (float*)A;
             ldbufa = lda;
           }else{
-            bufA = (float*)malloc(M * K * 2 * sizeof(float));
+            bufA = (float*)malloc((size_t)M * K * 2 * sizeof(float));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
@@ -747,7 +748,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (float*)malloc(M * K * 2 * sizeof(float));
+                bufA = (float*)malloc((size_t)M * K * 2 * sizeof(float));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
@@ -792,7 +793,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (float*)malloc(M * K * 2 * sizeof(float));
+                bufA = (float*)malloc((size_t)M * K * 2 * sizeof(float));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
@@ -843,7 +844,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (float*)malloc(M * K * 2 * sizeof(float));
+                bufA = (float*)malloc((size_t)M * K * 2 * sizeof(float));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
diff --git a/src/binnedBLAS/cbcgemv.ccog b/src/binnedBLAS/cbcgemv.ccog
index 95bc96c..f495dd8 100644
--- a/src/binnedBLAS/cbcgemv.ccog
+++ b/src/binnedBLAS/cbcgemv.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 
 #include "../common/common.h"
@@ -59,12 +60,12 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
                       const void *alpha, const void *A, const int lda,
                       const void *X, const int incX,
                       float_complex_binned *Y, const int incY){
-  int i;
-  int ii;
-  int iii;
-  int j;
-  int jj;
-  int jjj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t iii;
+  ptrdiff_t j;
+  ptrdiff_t jj;
+  ptrdiff_t jjj;
   float *bufX;
   int incbufX;
   float *bufA;
@@ -87,7 +88,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
             bufX = (float*)X;
             incbufX = incX;
           }else{
-            bufX = (float*)malloc(N * 2 * sizeof(float));
+            bufX = (float*)malloc((size_t)N * 2 * sizeof(float));
             for(j = 0; j < N; j++){
               bufX[2 * j] = ((float*)X)[2 * j * incX] * ((float*)alpha)[0] - ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[1];
               bufX[2 * j + 1] = ((float*)X)[2 * j * incX] * ((float*)alpha)[1] + ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[0];
@@ -113,7 +114,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
             bufX = (float*)X;
             incbufX = incX;
           }else{
-            bufX = (float*)malloc(M * 2 * sizeof(float));
+            bufX = (float*)malloc((size_t)M * 2 * sizeof(float));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((float*)X)[2 * j * incX] * ((float*)alpha)[0] - ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[1];
               bufX[2 * j + 1] = ((float*)X)[2 * j * incX] * ((float*)alpha)[1] + ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[0];
@@ -150,7 +151,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
             bufX = (float*)X;
             incbufX = incX;
           }else{
-            bufX = (float*)malloc(M * 2 * sizeof(float));
+            bufX = (float*)malloc((size_t)M * 2 * sizeof(float));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((float*)X)[2 * j * incX] * ((float*)alpha)[0] - ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[1];
               bufX[2 * j + 1] = ((float*)X)[2 * j * incX] * ((float*)alpha)[1] + ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[0];
@@ -205,7 +206,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
             bufX = (float*)X;
             incbufX = incX;
           }else{
-            bufX = (float*)malloc(M * 2 * sizeof(float));
+            bufX = (float*)malloc((size_t)M * 2 * sizeof(float));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((float*)X)[2 * j * incX] * ((float*)alpha)[0] - ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[1];
               bufX[2 * j + 1] = ((float*)X)[2 * j * incX] * ((float*)alpha)[1] + ((float*)X)[2 * j * incX + 1] * ((float*)alpha)[0];
diff --git a/src/binnedBLAS/dbdgemm.ccog b/src/binnedBLAS/dbdgemm.ccog
index 5938e61..2f76e74 100644
--- a/src/binnedBLAS/dbdgemm.ccog
+++ b/src/binnedBLAS/dbdgemm.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 
 #include "../common/common.h"
@@ -64,12 +65,12 @@ void binnedBLAS_dbdgemm(const int fold, const char Order,
              const double alpha, const double *A, const int lda,
              const double *B, const int ldb,
              double_binned *C, const int ldc){
-  int i;
-  int ii;
-  int k;
-  int kk;
-  int j;
-  int jj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t k;
+  ptrdiff_t kk;
+  ptrdiff_t j;
+  ptrdiff_t jj;
   double *bufA;
   int ldbufa;
   double *bufB;
@@ -93,7 +94,7 @@ void binnedBLAS_dbdgemm(const int fold, const char Order,
             bufA = (double*)A;
             ldbufa = lda;
           }else{
-            bufA = (double*)malloc(M * K * sizeof(double));
+            bufA = (double*)malloc((size_t)M * K * sizeof(double));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[i * K + k] = A[i * lda + k] * alpha;
@@ -362,7 +363,7 @@ void binnedBLAS_dbdgemm(const int fold, const char Order,
             bufA = (double*)A;
             ldbufa = lda;
           }else{
-            bufA = (double*)malloc(M * K * sizeof(double));
+            bufA = (double*)malloc((size_t)M * K * sizeof(double));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[i * K + k] = A[i * lda + k] * alpha;
diff --git a/src/binnedBLAS/dbdgemv.ccog b/src/binnedBLAS/dbdgemv.ccog
index e59a29a..b4d991f 100644
--- a/src/binnedBLAS/dbdgemv.ccog
+++ b/src/binnedBLAS/dbdgemv.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 
 #include "../common/common.h"
@@ -59,12 +60,12 @@ void binnedBLAS_dbdgemv(const int fold, const char Order,
                       const double alpha, const double *A, const int lda,
                       const double *X, const int incX,
                       double_binned *Y, const int incY){
-  int i;
-  int ii;
-  int iii;
-  int j;
-  int jj;
-  int jjj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t iii;
+  ptrdiff_t j;
+  ptrdiff_t jj;
+  ptrdiff_t jjj;
   double *bufX;
   int incbufX;
   double *bufA;
diff --git a/src/binnedBLAS/sbsgemm.ccog b/src/binnedBLAS/sbsgemm.ccog
index 96ba328..73c4ac3 100644
--- a/src/binnedBLAS/sbsgemm.ccog
+++ b/src/binnedBLAS/sbsgemm.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 
 #include "../common/common.h"
@@ -64,12 +65,12 @@ void binnedBLAS_sbsgemm(const int fold, const char Order,
              const float alpha, const float *A, const int lda,
              const float *B, const int ldb,
              float_binned *C, const int ldc){
-  int i;
-  int ii;
-  int k;
-  int kk;
-  int j;
-  int jj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t k;
+  ptrdiff_t kk;
+  ptrdiff_t j;
+  ptrdiff_t jj;
   float *bufA;
   int ldbufa;
   float *bufB;
@@ -93,7 +94,7 @@ void binnedBLAS_sbsgemm(const int fold, const char Order,
             bufA = (float*)A;
             ldbufa = lda;
           }else{
-            bufA = (float*)malloc(M * K * sizeof(float));
+            bufA = (float*)malloc((size_t)M * K * sizeof(float));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[i * K + k] = A[i * lda + k] * alpha;
@@ -362,7 +363,7 @@ void binnedBLAS_sbsgemm(const int fold, const char Order,
             bufA = (float*)A;
             ldbufa = lda;
           }else{
-            bufA = (float*)malloc(M * K * sizeof(float));
+            bufA = (float*)malloc((size_t)M * K * sizeof(float));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[i * K + k] = A[i * lda + k] * alpha;
diff --git a/src/binnedBLAS/sbsgemv.ccog b/src/binnedBLAS/sbsgemv.ccog
index fa90005..c55cfca 100644
--- a/src/binnedBLAS/sbsgemv.ccog
+++ b/src/binnedBLAS/sbsgemv.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 
 #include "../common/common.h"
@@ -59,12 +60,12 @@ void binnedBLAS_sbsgemv(const int fold, const char Order,
                       const float alpha, const float *A, const int lda,
                       const float *X, const int incX,
                       float_binned *Y, const int incY){
-  int i;
-  int ii;
-  int iii;
-  int j;
-  int jj;
-  int jjj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t iii;
+  ptrdiff_t j;
+  ptrdiff_t jj;
+  ptrdiff_t jjj;
   float *bufX;
   int incbufX;
   float *bufA;
diff --git a/src/binnedBLAS/zbzgemm.ccog b/src/binnedBLAS/zbzgemm.ccog
index 61f245f..5157890 100644
--- a/src/binnedBLAS/zbzgemm.ccog
+++ b/src/binnedBLAS/zbzgemm.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 
 #include "../common/common.h"
@@ -64,12 +65,12 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
              const void *alpha, const void *A, const int lda,
              const void *B, const int ldb,
              double_complex_binned *C, const int ldc){
-  int i;
-  int ii;
-  int k;
-  int kk;
-  int j;
-  int jj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t k;
+  ptrdiff_t kk;
+  ptrdiff_t j;
+  ptrdiff_t jj;
   double *bufA;
   int ldbufa;
   double *bufB;
@@ -93,7 +94,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
             bufA = (double*)A;
             ldbufa = lda;
           }else{
-            bufA = (double*)malloc(M * K * 2 * sizeof(double));
+            bufA = (double*)malloc((size_t)M * K * 2 * sizeof(double));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
@@ -648,7 +649,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
             bufA = (double*)A;
             ldbufa = lda;
           }else{
-            bufA = (double*)malloc(M * K * 2 * sizeof(double));
+            bufA = (double*)malloc((size_t)M * K * 2 * sizeof(double));
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
@@ -747,7 +748,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (double*)malloc(M * K * 2 * sizeof(double));
+                bufA = (double*)malloc((size_t)M * K * 2 * sizeof(double));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
@@ -792,7 +793,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (double*)malloc(M * K * 2 * sizeof(double));
+                bufA = (double*)malloc((size_t)M * K * 2 * sizeof(double));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
@@ -843,7 +844,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                   }
                 }
               }else{
-                bufA = (double*)malloc(M * K * 2 * sizeof(double));
+                bufA = (double*)malloc((size_t)M * K * 2 * sizeof(double));
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
diff --git a/src/binnedBLAS/zbzgemv.ccog b/src/binnedBLAS/zbzgemv.ccog
index bd17bb4..7535269 100644
--- a/src/binnedBLAS/zbzgemv.ccog
+++ b/src/binnedBLAS/zbzgemv.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 
 #include "../common/common.h"
@@ -59,12 +60,12 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
                       const void *alpha, const void *A, const int lda,
                       const void *X, const int incX,
                       double_complex_binned *Y, const int incY){
-  int i;
-  int ii;
-  int iii;
-  int j;
-  int jj;
-  int jjj;
+  ptrdiff_t i;
+  ptrdiff_t ii;
+  ptrdiff_t iii;
+  ptrdiff_t j;
+  ptrdiff_t jj;
+  ptrdiff_t jjj;
   double *bufX;
   int incbufX;
   double *bufA;
@@ -87,7 +88,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
             bufX = (double*)X;
             incbufX = incX;
           }else{
-            bufX = (double*)malloc(N * 2 * sizeof(double));
+            bufX = (double*)malloc((size_t)N * 2 * sizeof(double));
             for(j = 0; j < N; j++){
               bufX[2 * j] = ((double*)X)[2 * j * incX] * ((double*)alpha)[0] - ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[1];
               bufX[2 * j + 1] = ((double*)X)[2 * j * incX] * ((double*)alpha)[1] + ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[0];
@@ -113,7 +114,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
             bufX = (double*)X;
             incbufX = incX;
           }else{
-            bufX = (double*)malloc(M * 2 * sizeof(double));
+            bufX = (double*)malloc((size_t)M * 2 * sizeof(double));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((double*)X)[2 * j * incX] * ((double*)alpha)[0] - ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[1];
               bufX[2 * j + 1] = ((double*)X)[2 * j * incX] * ((double*)alpha)[1] + ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[0];
@@ -150,7 +151,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
             bufX = (double*)X;
             incbufX = incX;
           }else{
-            bufX = (double*)malloc(M * 2 * sizeof(double));
+            bufX = (double*)malloc((size_t)M * 2 * sizeof(double));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((double*)X)[2 * j * incX] * ((double*)alpha)[0] - ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[1];
               bufX[2 * j + 1] = ((double*)X)[2 * j * incX] * ((double*)alpha)[1] + ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[0];
@@ -205,7 +206,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
             bufX = (double*)X;
             incbufX = incX;
           }else{
-            bufX = (double*)malloc(M * 2 * sizeof(double));
+            bufX = (double*)malloc((size_t)M * 2 * sizeof(double));
             for(j = 0; j < M; j++){
               bufX[2 * j] = ((double*)X)[2 * j * incX] * ((double*)alpha)[0] - ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[1];
               bufX[2 * j + 1] = ((double*)X)[2 * j * incX] * ((double*)alpha)[1] + ((double*)X)[2 * j * incX + 1] * ((double*)alpha)[0];
diff --git a/src/reproBLAS/rcgemm.c b/src/reproBLAS/rcgemm.c
index 9c8f96f..69b7f14 100644
--- a/src/reproBLAS/rcgemm.c
+++ b/src/reproBLAS/rcgemm.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -45,19 +46,19 @@ void reproBLAS_rcgemm(const int fold, const char Order, const char TransA, const
                       const void *beta, void *C, const int ldc){
   float_complex_binned *CI;
   float betaC[2];
-  int i;
-  int j;
+  ptrdiff_t i;
+  ptrdiff_t j;
 
   if(M == 0 || N == 0){
     return;
   }
 
-  CI = (float_complex_binned*)malloc(M * N * binned_cbsize(fold));
+  CI = (float_complex_binned*)malloc((size_t)M * N * binned_cbsize(fold));
   switch(Order){
     case 'r':
     case 'R':
       if(((float*)beta)[0] == 0.0 && ((float*)beta)[1] == 0.0){
-        memset(CI, 0, M * N * binned_cbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_cbsize(fold));
       }else if(((float*)beta)[0] == 1.0 && ((float*)beta)[1] == 0.0){
         for(i = 0; i < M; i++){
           for(j = 0; j < N; j++){
@@ -82,7 +83,7 @@ void reproBLAS_rcgemm(const int fold, const char Order, const char TransA, const
       break;
     default:
       if(((float*)beta)[0] == 0.0 && ((float*)beta)[1] == 0.0){
-        memset(CI, 0, M * N * binned_cbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_cbsize(fold));
       }else if(((float*)beta)[0] == 1.0 && ((float*)beta)[1] == 0.0){
         for(j = 0; j < N; j++){
           for(i = 0; i < M; i++){
diff --git a/src/reproBLAS/rcgemv.c b/src/reproBLAS/rcgemv.c
index 31809a8..d8b8814 100644
--- a/src/reproBLAS/rcgemv.c
+++ b/src/reproBLAS/rcgemv.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -39,7 +40,7 @@ void reproBLAS_rcgemv(const int fold, const char Order,
                       const void *beta, void *Y, const int incY){
   float_complex_binned *YI;
   float betaY[2];
-  int i;
+  ptrdiff_t i;
 
   if(N == 0 || M == 0){
     return;
diff --git a/src/reproBLAS/rdgemm.c b/src/reproBLAS/rdgemm.c
index 3aa67b4..fd07183 100644
--- a/src/reproBLAS/rdgemm.c
+++ b/src/reproBLAS/rdgemm.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -44,19 +45,19 @@ void reproBLAS_rdgemm(const int fold, const char Order, const char TransA, const
                       const double *B, const int ldb,
                       const double beta, double *C, const int ldc){
   double_binned *CI;
-  int i;
-  int j;
+  ptrdiff_t i;
+  ptrdiff_t j;
 
   if(M == 0 || N == 0){
     return;
   }
 
-  CI = (double_binned*)malloc(M * N * binned_dbsize(fold));
+  CI = (double_binned*)malloc((size_t)M * N * binned_dbsize(fold));
   switch(Order){
     case 'r':
     case 'R':
       if(beta == 0.0){
-        memset(CI, 0, M * N * binned_dbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_dbsize(fold));
       }else if(beta == 1.0){
         for(i = 0; i < M; i++){
           for(j = 0; j < N; j++){
@@ -79,7 +80,7 @@ void reproBLAS_rdgemm(const int fold, const char Order, const char TransA, const
       break;
     default:
       if(beta == 0.0){
-        memset(CI, 0, M * N * binned_dbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_dbsize(fold));
       }else if(beta == 1.0){
         for(j = 0; j < N; j++){
           for(i = 0; i < M; i++){
diff --git a/src/reproBLAS/rdgemv.c b/src/reproBLAS/rdgemv.c
index 839f279..42034f3 100644
--- a/src/reproBLAS/rdgemv.c
+++ b/src/reproBLAS/rdgemv.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -38,7 +39,7 @@ void reproBLAS_rdgemv(const int fold, const char Order,
                       const double *X, const int incX,
                       const double beta, double *Y, const int incY){
   double_binned *YI;
-  int i;
+  ptrdiff_t i;
 
   if(N == 0 || M == 0){
     return;
diff --git a/src/reproBLAS/rsgemm.c b/src/reproBLAS/rsgemm.c
index 0a0da01..39a53a3 100644
--- a/src/reproBLAS/rsgemm.c
+++ b/src/reproBLAS/rsgemm.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -44,19 +45,19 @@ void reproBLAS_rsgemm(const int fold, const char Order, const char TransA, const
                       const float *B, const int ldb,
                       const float beta, float *C, const int ldc){
   float_binned *CI;
-  int i;
-  int j;
+  ptrdiff_t i;
+  ptrdiff_t j;
 
   if(M == 0 || N == 0){
     return;
   }
 
-  CI = (float_binned*)malloc(M * N * binned_sbsbze(fold));
+  CI = (float_binned*)malloc((size_t)M * N * binned_sbsbze(fold));
   switch(Order){
     case 'r':
     case 'R':
       if(beta == 0.0){
-        memset(CI, 0, M * N * binned_sbsbze(fold));
+        memset(CI, 0, (size_t)M * N * binned_sbsbze(fold));
       }else if(beta == 1.0){
         for(i = 0; i < M; i++){
           for(j = 0; j < N; j++){
@@ -79,7 +80,7 @@ void reproBLAS_rsgemm(const int fold, const char Order, const char TransA, const
       break;
     default:
       if(beta == 0.0){
-        memset(CI, 0, M * N * binned_sbsbze(fold));
+        memset(CI, 0, (size_t)M * N * binned_sbsbze(fold));
       }else if(beta == 1.0){
         for(j = 0; j < N; j++){
           for(i = 0; i < M; i++){
diff --git a/src/reproBLAS/rsgemv.c b/src/reproBLAS/rsgemv.c
index 763e3e9..4b17d69 100644
--- a/src/reproBLAS/rsgemv.c
+++ b/src/reproBLAS/rsgemv.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -38,7 +39,7 @@ void reproBLAS_rsgemv(const int fold, const char Order,
                       const float *X, const int incX,
                       const float beta, float *Y, const int incY){
   float_binned *YI;
-  int i;
+  ptrdiff_t i;
 
   if(N == 0 || M == 0){
     return;
diff --git a/src/reproBLAS/rzgemm.c b/src/reproBLAS/rzgemm.c
index 783e0fd..0bf2cc2 100644
--- a/src/reproBLAS/rzgemm.c
+++ b/src/reproBLAS/rzgemm.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -45,19 +46,19 @@ void reproBLAS_rzgemm(const int fold, const char Order, const char TransA, const
                       const void *beta, void *C, const int ldc){
   double_complex_binned *CI;
   double betaC[2];
-  int i;
-  int j;
+  ptrdiff_t i;
+  ptrdiff_t j;
 
   if(M == 0 || N == 0){
     return;
   }
 
-  CI = (double_complex_binned*)malloc(M * N * binned_zbsize(fold));
+  CI = (double_complex_binned*)malloc((size_t)M * N * binned_zbsize(fold));
   switch(Order){
     case 'r':
     case 'R':
       if(((double*)beta)[0] == 0.0 && ((double*)beta)[1] == 0.0){
-        memset(CI, 0, M * N * binned_zbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_zbsize(fold));
       }else if(((double*)beta)[0] == 1.0 && ((double*)beta)[1] == 0.0){
         for(i = 0; i < M; i++){
           for(j = 0; j < N; j++){
@@ -82,7 +83,7 @@ void reproBLAS_rzgemm(const int fold, const char Order, const char TransA, const
       break;
     default:
       if(((double*)beta)[0] == 0.0 && ((double*)beta)[1] == 0.0){
-        memset(CI, 0, M * N * binned_zbsize(fold));
+        memset(CI, 0, (size_t)M * N * binned_zbsize(fold));
       }else if(((double*)beta)[0] == 1.0 && ((double*)beta)[1] == 0.0){
         for(j = 0; j < N; j++){
           for(i = 0; i < M; i++){
diff --git a/src/reproBLAS/rzgemv.c b/src/reproBLAS/rzgemv.c
index 7097f84..627e784 100644
--- a/src/reproBLAS/rzgemv.c
+++ b/src/reproBLAS/rzgemv.c
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -39,7 +40,7 @@ void reproBLAS_rzgemv(const int fold, const char Order,
                       const void *beta, void *Y, const int incY){
   double_complex_binned *YI;
   double betaY[2];
-  int i;
+  ptrdiff_t i;
 
   if(N == 0 || M == 0){
     return;
-- 
2.43.0


From 6c7c140b6892ddc298fa40fb61bfce39580fd4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 22/23] fix: vector operations with strides whose multiples
 exceed an int

The emitted code multiplied the stride with the unroll width, and the
block loops with the block length, as ints; the loop of the maximum
overflowed for N close to INT_MAX.
---
 src/binnedBLAS/amax.py         | 2 +-
 src/binnedBLAS/camax_sub.ccog  | 1 +
 src/binnedBLAS/camaxm_sub.ccog | 1 +
 src/binnedBLAS/cmcdotc.ccog    | 5 +++--
 src/binnedBLAS/cmcdotu.ccog    | 5 +++--
 src/binnedBLAS/cmcsum.ccog     | 5 +++--
 src/binnedBLAS/damax.ccog      | 1 +
 src/binnedBLAS/damaxm.ccog     | 1 +
 src/binnedBLAS/dmdasum.ccog    | 5 +++--
 src/binnedBLAS/dmddot.ccog     | 5 +++--
 src/binnedBLAS/dmdssq.ccog     | 5 +++--
 src/binnedBLAS/dmdsum.ccog     | 5 +++--
 src/binnedBLAS/dmzasum.ccog    | 5 +++--
 src/binnedBLAS/dmzssq.ccog     | 5 +++--
 src/binnedBLAS/samax.ccog      | 1 +
 src/binnedBLAS/samaxm.ccog     | 1 +
 src/binnedBLAS/smcasum.ccog    | 5 +++--
 src/binnedBLAS/smcssq.ccog     | 5 +++--
 src/binnedBLAS/smsasum.ccog    | 5 +++--
 src/binnedBLAS/smsdot.ccog     | 5 +++--
 src/binnedBLAS/smsssq.ccog     | 5 +++--
 src/binnedBLAS/smssum.ccog     | 5 +++--
 src/binnedBLAS/zamax_sub.ccog  | 1 +
 src/binnedBLAS/zamaxm_sub.ccog | 1 +
 src/binnedBLAS/zmzdotc.ccog    | 5 +++--
 src/binnedBLAS/zmzdotu.ccog    | 5 +++--
 src/binnedBLAS/zmzsum.ccog     | 5 +++--
 src/gen/dataTypes.py           | 9 ++++++++-
 28 files changed, 71 insertions(+), 38 deletions(-)

diff --git a/src/binnedBLAS/amax.py b/src/binnedBLAS/amax.py
index 96a1cf4..8c3e902 100644
--- a/src/binnedBLAS/amax.py
+++ b/src/binnedBLAS/amax.py
@@ -44,7 +44,7 @@ class AMax(Target):
       self.vec = vec_class(code_block, self.data_type_class)
       max_unroll_width = self.arguments["{}{}_max_unroll_width_{}".format(self.data_type.name_char, self.name, self.vec.name)]
       max_reg_width = self.compute_reg_width(max_unroll_width)
-      code_block.write("int i;")
+      code_block.write("ptrdiff_t i;")
       code_block.new_line()
       self.define_load_ptrs(code_block, max_reg_width)
       self.define_load_vars(code_block, max_reg_width)
diff --git a/src/binnedBLAS/camax_sub.ccog b/src/binnedBLAS/camax_sub.ccog
index 2fbc1f5..5f93363 100644
--- a/src/binnedBLAS/camax_sub.ccog
+++ b/src/binnedBLAS/camax_sub.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
diff --git a/src/binnedBLAS/camaxm_sub.ccog b/src/binnedBLAS/camaxm_sub.ccog
index 9c1d10d..4240255 100644
--- a/src/binnedBLAS/camaxm_sub.ccog
+++ b/src/binnedBLAS/camaxm_sub.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 827f202..9371dcf 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -59,8 +60,8 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, term
 void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
   float amaxm[2];
   float prod;
-  int i, j;
-  int N_block = MIN(N_block_MAX, binned_SBENDURANCE/2);
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = MIN(N_block_MAX, binned_SBENDURANCE/2);
   int deposits = 0;
 
   const float *x = (const float*)X;
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index 1ffdc23..ded777a 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -59,8 +60,8 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, term
 void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
   float amaxm[2];
   float prod;
-  int i, j;
-  int N_block = MIN(N_block_MAX, binned_SBENDURANCE/2);
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = MIN(N_block_MAX, binned_SBENDURANCE/2);
   int deposits = 0;
 
   const float *x = (const float*)X;
diff --git a/src/binnedBLAS/cmcsum.ccog b/src/binnedBLAS/cmcsum.ccog
index 5ba386c..98b7cf7 100644
--- a/src/binnedBLAS/cmcsum.ccog
+++ b/src/binnedBLAS/cmcsum.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -57,8 +58,8 @@ cog.out(generate.generate(blockSize.BlockSize("cmcsum", "N_block_MAX", 32, termi
  */
 void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int incX, float *priY, const int incpriY, float *carY, const int inccarY){
   float amax[2];
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
 
   const float *x = (const float*)X;
diff --git a/src/binnedBLAS/damax.ccog b/src/binnedBLAS/damax.ccog
index 8c48d75..45449cf 100644
--- a/src/binnedBLAS/damax.ccog
+++ b/src/binnedBLAS/damax.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
diff --git a/src/binnedBLAS/damaxm.ccog b/src/binnedBLAS/damaxm.ccog
index 86de40a..dff0fec 100644
--- a/src/binnedBLAS/damaxm.ccog
+++ b/src/binnedBLAS/damaxm.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
diff --git a/src/binnedBLAS/dmdasum.ccog b/src/binnedBLAS/dmdasum.ccog
index 028d0b4..ce4eaee 100644
--- a/src/binnedBLAS/dmdasum.ccog
+++ b/src/binnedBLAS/dmdasum.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -56,8 +57,8 @@ cog.out(generate.generate(blockSize.BlockSize("dmdasum", "N_block_MAX", 32, term
  */
 void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int incX, double *priY, const int incpriY, double *carY, const int inccarY){
   double amax;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
 
   for (i = 0; i < N; i += N_block) {
diff --git a/src/binnedBLAS/dmddot.ccog b/src/binnedBLAS/dmddot.ccog
index 16d6967..a90cfcd 100644
--- a/src/binnedBLAS/dmddot.ccog
+++ b/src/binnedBLAS/dmddot.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -59,8 +60,8 @@ cog.out(generate.generate(blockSize.BlockSize("dmddot", "N_block_MAX", 32, termi
 void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int incX, const double *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
   double amaxm;
   double prod;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
 
   for (i = 0; i < N; i += N_block) {
diff --git a/src/binnedBLAS/dmdssq.ccog b/src/binnedBLAS/dmdssq.ccog
index 0cb5c38..f638319 100644
--- a/src/binnedBLAS/dmdssq.ccog
+++ b/src/binnedBLAS/dmdssq.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -61,8 +62,8 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
   double amax;
   double scl = scaleY;
   double new_scl;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
 
   for (i = 0; i < N; i += N_block) {
diff --git a/src/binnedBLAS/dmdsum.ccog b/src/binnedBLAS/dmdsum.ccog
index b80ca38..fc49acb 100644
--- a/src/binnedBLAS/dmdsum.ccog
+++ b/src/binnedBLAS/dmdsum.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -56,8 +57,8 @@ cog.out(generate.generate(blockSize.BlockSize("dmdsum", "N_block_MAX", 32, termi
  */
 void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int incX, double *priY, const int incpriY, double *carY, const int inccarY){
   double amax;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
 
   for (i = 0; i < N; i += N_block) {
diff --git a/src/binnedBLAS/dmzasum.ccog b/src/binnedBLAS/dmzasum.ccog
index c298a57..f1e7af0 100644
--- a/src/binnedBLAS/dmzasum.ccog
+++ b/src/binnedBLAS/dmzasum.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -57,8 +58,8 @@ cog.out(generate.generate(blockSize.BlockSize("dmzasum", "N_block_MAX", 32, term
 void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int incX, double *priY, const int incpriY, double *carY, const int inccarY){
   double amax_tmp[2];
   double amax;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
   double_complex_binned *asum = binned_zballoc(fold);
   binned_zbsetzero(fold, asum);
diff --git a/src/binnedBLAS/dmzssq.ccog b/src/binnedBLAS/dmzssq.ccog
index 80141a1..ed642e1 100644
--- a/src/binnedBLAS/dmzssq.ccog
+++ b/src/binnedBLAS/dmzssq.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -61,8 +62,8 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
   double amax;
   double scl = 0.0;
   double new_scl;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
   double_complex_binned *ssq = binned_zballoc(fold);
   binned_zbsetzero(fold, ssq);
diff --git a/src/binnedBLAS/samax.ccog b/src/binnedBLAS/samax.ccog
index 2255f2c..e256d9e 100644
--- a/src/binnedBLAS/samax.ccog
+++ b/src/binnedBLAS/samax.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
diff --git a/src/binnedBLAS/samaxm.ccog b/src/binnedBLAS/samaxm.ccog
index 7bf1f3c..5fb3979 100644
--- a/src/binnedBLAS/samaxm.ccog
+++ b/src/binnedBLAS/samaxm.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
diff --git a/src/binnedBLAS/smcasum.ccog b/src/binnedBLAS/smcasum.ccog
index 41bfd46..d91fce1 100644
--- a/src/binnedBLAS/smcasum.ccog
+++ b/src/binnedBLAS/smcasum.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -57,8 +58,8 @@ cog.out(generate.generate(blockSize.BlockSize("smcasum", "N_block_MAX", 32, term
 void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int incX, float *priY, const int incpriY, float *carY, const int inccarY){
   float amax_tmp[2];
   float amax;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
   float_complex_binned *asum = binned_cballoc(fold);
   binned_cbsetzero(fold, asum);
diff --git a/src/binnedBLAS/smcssq.ccog b/src/binnedBLAS/smcssq.ccog
index 125c800..e335dc6 100644
--- a/src/binnedBLAS/smcssq.ccog
+++ b/src/binnedBLAS/smcssq.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -61,8 +62,8 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
   float amax;
   float scl = 0.0;
   float new_scl;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
   float_complex_binned *ssq = binned_cballoc(fold);
   binned_cbsetzero(fold, ssq);
diff --git a/src/binnedBLAS/smsasum.ccog b/src/binnedBLAS/smsasum.ccog
index 9783639..c6f363b 100644
--- a/src/binnedBLAS/smsasum.ccog
+++ b/src/binnedBLAS/smsasum.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -56,8 +57,8 @@ cog.out(generate.generate(blockSize.BlockSize("smsasum", "N_block_MAX", 32, term
  */
 void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int incX, float *priY, const int incpriY, float *carY, const int inccarY){
   float amax;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
 
   for (i = 0; i < N; i += N_block) {
diff --git a/src/binnedBLAS/smsdot.ccog b/src/binnedBLAS/smsdot.ccog
index 0fd61f2..92baba6 100644
--- a/src/binnedBLAS/smsdot.ccog
+++ b/src/binnedBLAS/smsdot.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -59,8 +60,8 @@ cog.out(generate.generate(blockSize.BlockSize("smsdot", "N_block_MAX", 32, termi
 void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int incX, const float *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
   float amaxm;
   float prod;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
 
   for (i = 0; i < N; i += N_block) {
diff --git a/src/binnedBLAS/smsssq.ccog b/src/binnedBLAS/smsssq.ccog
index 4775cf9..9e0daaf 100644
--- a/src/binnedBLAS/smsssq.ccog
+++ b/src/binnedBLAS/smsssq.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -60,8 +61,8 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
   float amax;
   float scl = scaleY;
   float new_scl;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
 
   for (i = 0; i < N; i += N_block) {
diff --git a/src/binnedBLAS/smssum.ccog b/src/binnedBLAS/smssum.ccog
index 12926b9..a2663d4 100644
--- a/src/binnedBLAS/smssum.ccog
+++ b/src/binnedBLAS/smssum.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -57,8 +58,8 @@ cog.out(generate.generate(blockSize.BlockSize("smssum", "N_block_MAX", 32, termi
  */
 void binnedBLAS_smssum(const int fold, const int N, const float *X, const int incX, float *priY, const int incpriY, float *carY, const int inccarY){
   float amax;
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
 
   for (i = 0; i < N; i += N_block) {
diff --git a/src/binnedBLAS/zamax_sub.ccog b/src/binnedBLAS/zamax_sub.ccog
index febdeb3..59d1343 100644
--- a/src/binnedBLAS/zamax_sub.ccog
+++ b/src/binnedBLAS/zamax_sub.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
diff --git a/src/binnedBLAS/zamaxm_sub.ccog b/src/binnedBLAS/zamaxm_sub.ccog
index 54a9e30..04d9165 100644
--- a/src/binnedBLAS/zamaxm_sub.ccog
+++ b/src/binnedBLAS/zamaxm_sub.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index a032718..351f3fe 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -59,8 +60,8 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, term
 void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
   double amaxm[2];
   double prod;
-  int i, j;
-  int N_block = MIN(N_block_MAX, binned_DBENDURANCE/2);
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = MIN(N_block_MAX, binned_DBENDURANCE/2);
   int deposits = 0;
 
   const double *x = (const double*)X;
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index 1a8806a..3bbc58d 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -59,8 +60,8 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, term
 void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
   double amaxm[2];
   double prod;
-  int i, j;
-  int N_block = MIN(N_block_MAX, binned_DBENDURANCE/2);
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = MIN(N_block_MAX, binned_DBENDURANCE/2);
   int deposits = 0;
 
   const double *x = (const double*)X;
diff --git a/src/binnedBLAS/zmzsum.ccog b/src/binnedBLAS/zmzsum.ccog
index a7c5ea3..03d64d7 100644
--- a/src/binnedBLAS/zmzsum.ccog
+++ b/src/binnedBLAS/zmzsum.ccog
@@ -1,3 +1,4 @@
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 
@@ -56,8 +57,8 @@ cog.out(generate.generate(blockSize.BlockSize("zmzsum", "N_block_MAX", 32, termi
  */
 void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int incX, double *priY, const int incpriY, double *carY, const int inccarY){
   double amax[2];
-  int i, j;
-  int N_block = N_block_MAX;
+  ptrdiff_t i, j;
+  ptrdiff_t N_block = N_block_MAX;
   int deposits = 0;
 
   const double *x = (const double*)X;
diff --git a/src/gen/dataTypes.py b/src/gen/dataTypes.py
index 3d94ddf..c6d680e 100644
--- a/src/gen/dataTypes.py
+++ b/src/gen/dataTypes.py
@@ -21,7 +21,14 @@ class DataType(object):
   base_size = 0
   is_complex = False
 
+  ##
+  #  @brief a stride for use in an index, widened as its multiples may not fit into an int
+  #
+  def stride(self, inc):
+    return inc if str(inc).isdigit() else "(ptrdiff_t){0}".format(inc)
+
   def index(self, offset, inc, i, base_index = True):
+    inc = self.stride(inc)
     if(self.is_complex and base_index):
       return mix("+", mix("*", self.base_size, inc, mix("+", offset, mix("//", i, 2))), mix("%", i, 2))
     else:
@@ -36,7 +43,7 @@ class DataType(object):
   #  @return a string that performs the increment by i of all source pointers
   #
   def data_increment(self, src_ptrs, src_incs, i):
-    return ", ".join(["{0} += {1}".format(src_ptr, mix("*", src_inc, self.base_size, i)) for (src_ptr, src_inc) in zip(src_ptrs, src_incs)])
+    return ", ".join(["{0} += {1}".format(src_ptr, mix("*", self.stride(src_inc), self.base_size, i)) for (src_ptr, src_inc) in zip(src_ptrs, src_incs)])
 
 class Double(DataType):
   name_char = 'd'
-- 
2.43.0


From 5885309e69cb0fde6c04e53aa42b47dd08426b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:20 +0000
Subject: [PATCH 23/23] fix: bring the generated text of the vector operations
 up to date with the generator

The text committed between the generator blocks is what is compiled when
Python is not available; it now has the strides' wide types too.
---
 src/binnedBLAS/camax_sub.ccog  |   86 +-
 src/binnedBLAS/camaxm_sub.ccog |   80 +-
 src/binnedBLAS/cmcdotc.ccog    | 1224 +++++++++---------
 src/binnedBLAS/cmcdotu.ccog    | 1748 ++++++++++++-------------
 src/binnedBLAS/cmcsum.ccog     |  748 +++++------
 src/binnedBLAS/damax.ccog      |   86 +-
 src/binnedBLAS/damaxm.ccog     |  114 +-
 src/binnedBLAS/dmdasum.ccog    |  716 +++++-----
 src/binnedBLAS/dmddot.ccog     | 2224 ++++++++++++++++----------------
 src/binnedBLAS/dmdssq.ccog     |  556 ++++----
 src/binnedBLAS/dmdsum.ccog     |  754 +++++------
 src/binnedBLAS/dmzasum.ccog    |  936 +++++++-------
 src/binnedBLAS/dmzssq.ccog     |  364 +++---
 src/binnedBLAS/samax.ccog      |   92 +-
 src/binnedBLAS/samaxm.ccog     |  156 +--
 src/binnedBLAS/smcasum.ccog    |  572 ++++----
 src/binnedBLAS/smcssq.ccog     |  480 +++----
 src/binnedBLAS/smsasum.ccog    |  772 +++++------
 src/binnedBLAS/smsdot.ccog     | 1594 +++++++++++------------
 src/binnedBLAS/smsssq.ccog     |  740 +++++------
 src/binnedBLAS/smssum.ccog     |  694 +++++-----
 src/binnedBLAS/zamax_sub.ccog  |   72 +-
 src/binnedBLAS/zamaxm_sub.ccog |   62 +-
 src/binnedBLAS/zmzdotc.ccog    |  890 ++++++-------
 src/binnedBLAS/zmzdotu.ccog    | 1010 +++++++--------
 src/binnedBLAS/zmzsum.ccog     |  726 +++++------
 26 files changed, 8748 insertions(+), 8748 deletions(-)

diff --git a/src/binnedBLAS/camax_sub.ccog b/src/binnedBLAS/camax_sub.ccog
index 5f93363..8a0d57f 100644
--- a/src/binnedBLAS/camax_sub.ccog
+++ b/src/binnedBLAS/camax_sub.ccog
@@ -61,7 +61,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX, void *amax
     }
     float max_buffer_tmp[8] __attribute__((aligned(32))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m256 x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7;
     __m256 m_0;
@@ -117,15 +117,15 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX, void *amax
       }
     }else{
 
-      for(i = 0; i + 32 <= N; i += 32, x += (incX * 64)){
-        x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-        x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-        x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-        x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-        x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-        x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
-        x_6 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]), abs_mask_tmp);
-        x_7 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]), abs_mask_tmp);
+      for(i = 0; i + 32 <= N; i += 32, x += ((ptrdiff_t)incX * 64)){
+        x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+        x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+        x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+        x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+        x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+        x_6 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+        x_7 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
         m_0 = _mm256_max_ps(m_0, x_1);
         m_0 = _mm256_max_ps(m_0, x_2);
@@ -136,32 +136,32 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX, void *amax
         m_0 = _mm256_max_ps(m_0, x_7);
       }
       if(i + 16 <= N){
-        x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-        x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-        x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-        x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
+        x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+        x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+        x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
         m_0 = _mm256_max_ps(m_0, x_1);
         m_0 = _mm256_max_ps(m_0, x_2);
         m_0 = _mm256_max_ps(m_0, x_3);
-        i += 16, x += (incX * 32);
+        i += 16, x += ((ptrdiff_t)incX * 32);
       }
       if(i + 8 <= N){
-        x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-        x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
+        x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+        x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
         m_0 = _mm256_max_ps(m_0, x_1);
-        i += 8, x += (incX * 16);
+        i += 8, x += ((ptrdiff_t)incX * 16);
       }
       if(i + 4 <= N){
-        x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+        x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
-        i += 4, x += (incX * 8);
+        i += 4, x += ((ptrdiff_t)incX * 8);
       }
       if(i < N){
-        x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
+        x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
-        x += (incX * (N - i) * 2);
+        x += ((ptrdiff_t)incX * (N - i) * 2);
       }
     }
     _mm256_store_ps(max_buffer_tmp, m_0);
@@ -186,7 +186,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX, void *amax
     }
     float max_buffer_tmp[4] __attribute__((aligned(16))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m128 x_0, x_1, x_2, x_3, x_4, x_5;
     __m128 m_0;
@@ -238,13 +238,13 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX, void *amax
       }
     }else{
 
-      for(i = 0; i + 12 <= N; i += 12, x += (incX * 24)){
-        x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-        x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-        x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-        x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
-        x_4 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-        x_5 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), abs_mask_tmp);
+      for(i = 0; i + 12 <= N; i += 12, x += ((ptrdiff_t)incX * 24)){
+        x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+        x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+        x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+        x_4 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+        x_5 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
         m_0 = _mm_max_ps(m_0, x_1);
         m_0 = _mm_max_ps(m_0, x_2);
@@ -253,32 +253,32 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX, void *amax
         m_0 = _mm_max_ps(m_0, x_5);
       }
       if(i + 8 <= N){
-        x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-        x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-        x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-        x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
+        x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+        x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+        x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
         m_0 = _mm_max_ps(m_0, x_1);
         m_0 = _mm_max_ps(m_0, x_2);
         m_0 = _mm_max_ps(m_0, x_3);
-        i += 8, x += (incX * 16);
+        i += 8, x += ((ptrdiff_t)incX * 16);
       }
       if(i + 4 <= N){
-        x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-        x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
+        x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+        x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
         m_0 = _mm_max_ps(m_0, x_1);
-        i += 4, x += (incX * 8);
+        i += 4, x += ((ptrdiff_t)incX * 8);
       }
       if(i + 2 <= N){
-        x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+        x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
-        i += 2, x += (incX * 4);
+        i += 2, x += ((ptrdiff_t)incX * 4);
       }
       if(i < N){
         x_0 = _mm_and_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
-        x += (incX * (N - i) * 2);
+        x += ((ptrdiff_t)incX * (N - i) * 2);
       }
     }
     _mm_store_ps(max_buffer_tmp, m_0);
@@ -288,7 +288,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX, void *amax
     ((float*)amax)[1] = max_buffer_tmp[1];
 
   #else
-    int i;
+    ptrdiff_t i;
 
     float x_0, x_1;
     float m_0, m_1;
@@ -305,7 +305,7 @@ void binnedBLAS_camax_sub(const int N, const void *X, const int incX, void *amax
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, x += (incX * 2)){
+      for(i = 0; i + 1 <= N; i += 1, x += ((ptrdiff_t)incX * 2)){
         x_0 = fabsf(((float*)x)[0]);
         x_1 = fabsf(((float*)x)[1]);
         m_0 = (m_0 > x_0? m_0: x_0);
diff --git a/src/binnedBLAS/camaxm_sub.ccog b/src/binnedBLAS/camaxm_sub.ccog
index 4240255..400b0fd 100644
--- a/src/binnedBLAS/camaxm_sub.ccog
+++ b/src/binnedBLAS/camaxm_sub.ccog
@@ -63,7 +63,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
     }
     float max_buffer_tmp[8] __attribute__((aligned(32))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m256 x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7;
     __m256 y_0, y_1, y_2, y_3;
@@ -133,15 +133,15 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
       }
     }else{
 
-      for(i = 0; i + 16 <= N; i += 16, x += (incX * 32), y += (incY * 32)){
-        x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-        x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-        x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-        x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-        y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-        y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-        y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-        y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+      for(i = 0; i + 16 <= N; i += 16, x += ((ptrdiff_t)incX * 32), y += ((ptrdiff_t)incY * 32)){
+        x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+        x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+        x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+        x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+        y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+        y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+        y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+        y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
         x_4 = _mm256_and_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), abs_mask_tmp);
         x_5 = _mm256_and_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), abs_mask_tmp);
         x_6 = _mm256_and_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), abs_mask_tmp);
@@ -160,10 +160,10 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
         m_0 = _mm256_max_ps(m_0, x_7);
       }
       if(i + 8 <= N){
-        x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-        x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-        y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-        y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+        x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+        x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+        y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+        y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
         x_2 = _mm256_and_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), abs_mask_tmp);
         x_3 = _mm256_and_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), abs_mask_tmp);
         x_0 = _mm256_and_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), abs_mask_tmp);
@@ -172,25 +172,25 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
         m_0 = _mm256_max_ps(m_0, x_1);
         m_0 = _mm256_max_ps(m_0, x_2);
         m_0 = _mm256_max_ps(m_0, x_3);
-        i += 8, x += (incX * 16), y += (incY * 16);
+        i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
       }
       if(i + 4 <= N){
-        x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-        y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+        x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+        y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
         x_1 = _mm256_and_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), abs_mask_tmp);
         x_0 = _mm256_and_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
         m_0 = _mm256_max_ps(m_0, x_1);
-        i += 4, x += (incX * 8), y += (incY * 8);
+        i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
       }
       if(i < N){
-        x_0 = (__m256)_mm256_set_pd(0, (N - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-        y_0 = (__m256)_mm256_set_pd(0, (N - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+        x_0 = (__m256)_mm256_set_pd(0, (N - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+        y_0 = (__m256)_mm256_set_pd(0, (N - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
         x_1 = _mm256_and_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), abs_mask_tmp);
         x_0 = _mm256_and_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, x_0);
         m_0 = _mm256_max_ps(m_0, x_1);
-        x += (incX * (N - i) * 2), y += (incY * (N - i) * 2);
+        x += ((ptrdiff_t)incX * (N - i) * 2), y += ((ptrdiff_t)incY * (N - i) * 2);
       }
     }
     _mm256_store_ps(max_buffer_tmp, m_0);
@@ -215,7 +215,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
     }
     float max_buffer_tmp[4] __attribute__((aligned(16))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m128 x_0, x_1, x_2, x_3, x_4, x_5;
     __m128 y_0, y_1, y_2;
@@ -279,13 +279,13 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
       }
     }else{
 
-      for(i = 0; i + 6 <= N; i += 6, x += (incX * 12), y += (incY * 12)){
-        x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-        x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-        x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-        y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-        y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-        y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+      for(i = 0; i + 6 <= N; i += 6, x += ((ptrdiff_t)incX * 12), y += ((ptrdiff_t)incY * 12)){
+        x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+        x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+        x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+        y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+        y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+        y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
         x_3 = _mm_and_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), abs_mask_tmp);
         x_4 = _mm_and_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), abs_mask_tmp);
         x_5 = _mm_and_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), abs_mask_tmp);
@@ -300,10 +300,10 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
         m_0 = _mm_max_ps(m_0, x_5);
       }
       if(i + 4 <= N){
-        x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-        x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-        y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-        y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+        x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+        x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+        y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+        y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
         x_2 = _mm_and_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), abs_mask_tmp);
         x_3 = _mm_and_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), abs_mask_tmp);
         x_0 = _mm_and_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), abs_mask_tmp);
@@ -312,16 +312,16 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
         m_0 = _mm_max_ps(m_0, x_1);
         m_0 = _mm_max_ps(m_0, x_2);
         m_0 = _mm_max_ps(m_0, x_3);
-        i += 4, x += (incX * 8), y += (incY * 8);
+        i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
       }
       if(i + 2 <= N){
-        x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-        y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+        x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+        y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
         x_1 = _mm_and_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), abs_mask_tmp);
         x_0 = _mm_and_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
         m_0 = _mm_max_ps(m_0, x_1);
-        i += 2, x += (incX * 4), y += (incY * 4);
+        i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
       }
       if(i < N){
         x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -330,7 +330,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
         x_0 = _mm_and_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, x_0);
         m_0 = _mm_max_ps(m_0, x_1);
-        x += (incX * (N - i) * 2), y += (incY * (N - i) * 2);
+        x += ((ptrdiff_t)incX * (N - i) * 2), y += ((ptrdiff_t)incY * (N - i) * 2);
       }
     }
     _mm_store_ps(max_buffer_tmp, m_0);
@@ -340,7 +340,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
     ((float*)amaxm)[1] = max_buffer_tmp[1];
 
   #else
-    int i;
+    ptrdiff_t i;
 
     float x_0, x_1, x_2, x_3;
     float y_0, y_1;
@@ -366,7 +366,7 @@ void binnedBLAS_camaxm_sub(const int N, const void *X, const int incX, const voi
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, x += (incX * 2), y += (incY * 2)){
+      for(i = 0; i + 1 <= N; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
         x_0 = ((float*)x)[0];
         x_1 = ((float*)x)[1];
         y_0 = ((float*)y)[0];
diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 9371dcf..decff1a 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -156,7 +156,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               __m256 s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 2)));
+              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -329,11 +329,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += ((ptrdiff_t)incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -362,7 +362,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -376,11 +376,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -394,14 +394,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += ((ptrdiff_t)incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -430,7 +430,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -444,11 +444,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -462,7 +462,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -484,9 +484,9 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += 16){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -516,7 +516,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -531,10 +531,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -549,12 +549,12 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += 16){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -584,7 +584,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -599,10 +599,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -617,7 +617,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -637,11 +637,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -669,8 +669,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -684,11 +684,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -702,14 +702,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -737,8 +737,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -752,11 +752,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -770,7 +770,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -782,12 +782,12 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -808,8 +808,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               __m256 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 4)));
+              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 4)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -1230,15 +1230,15 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += (incY * 32)){
+                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += ((ptrdiff_t)incY * 32)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
                       x_3 = _mm256_loadu_ps(((float*)x) + 24);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_5 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_6 = _mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5));
@@ -1324,8 +1324,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     if(i + 8 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -1367,11 +1367,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -1393,11 +1393,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -1419,18 +1419,18 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += (incY * 32)){
+                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += ((ptrdiff_t)incY * 32)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
                       x_3 = _mm256_loadu_ps(((float*)x) + 24);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_5 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_6 = _mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5));
@@ -1516,8 +1516,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     if(i + 8 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -1559,11 +1559,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -1585,11 +1585,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -1611,7 +1611,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -1633,11 +1633,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += 32){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32), y += 32){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -1725,8 +1725,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -1770,10 +1770,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -1796,10 +1796,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -1822,14 +1822,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += 32){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32), y += 32){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -1917,8 +1917,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -1962,10 +1962,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -1988,10 +1988,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -2014,7 +2014,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -2034,15 +2034,15 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += (incY * 32)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32), y += ((ptrdiff_t)incY * 32)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_5 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_6 = _mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5));
@@ -2126,10 +2126,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -2171,11 +2171,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -2197,11 +2197,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -2223,18 +2223,18 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += (incY * 32)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32), y += ((ptrdiff_t)incY * 32)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_5 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_6 = _mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5));
@@ -2318,10 +2318,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -2363,11 +2363,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -2389,11 +2389,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -2415,7 +2415,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -2427,18 +2427,18 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], ((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], ((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 4)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm256_add_ps(s_2_0, _mm256_sub_ps(s_2_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2460,9 +2460,9 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               __m256 s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 4)));
-              s_3_0 = s_3_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 6)));
+              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 4)));
+              s_3_0 = s_3_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 6)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -3011,15 +3011,15 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += (incY * 32)){
+                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += ((ptrdiff_t)incY * 32)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
                       x_3 = _mm256_loadu_ps(((float*)x) + 24);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_5 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_6 = _mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5));
@@ -3137,8 +3137,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     if(i + 8 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -3196,11 +3196,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -3230,11 +3230,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -3264,18 +3264,18 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += (incY * 32)){
+                    for(i = 0; i + 16 <= N_block; i += 16, x += 32, y += ((ptrdiff_t)incY * 32)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
                       x_3 = _mm256_loadu_ps(((float*)x) + 24);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_5 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_6 = _mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5));
@@ -3393,8 +3393,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     if(i + 8 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -3452,11 +3452,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -3486,11 +3486,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -3520,7 +3520,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -3542,11 +3542,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += 32){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32), y += 32){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -3666,8 +3666,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -3727,10 +3727,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -3761,10 +3761,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -3795,14 +3795,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += 32){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32), y += 32){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -3922,8 +3922,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -3983,10 +3983,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -4017,10 +4017,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -4051,7 +4051,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -4071,15 +4071,15 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += (incY * 32)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32), y += ((ptrdiff_t)incY * 32)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_5 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_6 = _mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5));
@@ -4195,10 +4195,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -4256,11 +4256,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -4290,11 +4290,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -4324,18 +4324,18 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32), y += (incY * 32)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32), y += ((ptrdiff_t)incY * 32)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_5 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_6 = _mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5));
@@ -4451,10 +4451,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -4512,11 +4512,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -4546,11 +4546,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -4580,7 +4580,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -4592,24 +4592,24 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], ((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], ((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 4)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm256_add_ps(s_2_0, _mm256_sub_ps(s_2_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 6) + 1)], ((float*)priZ)[(incpriZ * 6)], ((float*)priZ)[((incpriZ * 6) + 1)], ((float*)priZ)[(incpriZ * 6)], ((float*)priZ)[((incpriZ * 6) + 1)], ((float*)priZ)[(incpriZ * 6)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 6)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 6)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 6)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 6)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 6)));
               s_3_0 = _mm256_add_ps(s_3_0, _mm256_sub_ps(s_3_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_3_0);
-              ((float*)priZ)[(incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -4629,7 +4629,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               __m256 s_buffer[(binned_SBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * j * 2)));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * j * 2)));
               }
 
               if(incX == 1){
@@ -4875,11 +4875,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += ((ptrdiff_t)incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -4936,7 +4936,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -4964,11 +4964,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -4996,14 +4996,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += ((ptrdiff_t)incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -5040,7 +5040,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -5058,11 +5058,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -5080,7 +5080,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -5102,9 +5102,9 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += 16){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -5162,7 +5162,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -5191,10 +5191,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -5223,12 +5223,12 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += 16){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
@@ -5266,7 +5266,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -5285,10 +5285,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -5307,7 +5307,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -5327,11 +5327,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -5387,8 +5387,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -5416,11 +5416,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -5448,14 +5448,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_3 = _mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
@@ -5491,8 +5491,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -5510,11 +5510,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5));
                       x_0 = _mm256_xor_ps(_mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0)), conj_mask_tmp);
 
@@ -5532,19 +5532,19 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm256_sub_ps(s_buffer[(j * 2)], _mm256_set_ps(((float*)priZ)[((incpriZ * j * 2) + 1)], ((float*)priZ)[(incpriZ * j * 2)], ((float*)priZ)[((incpriZ * j * 2) + 1)], ((float*)priZ)[(incpriZ * j * 2)], ((float*)priZ)[((incpriZ * j * 2) + 1)], ((float*)priZ)[(incpriZ * j * 2)], 0, 0));
-                cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * j * 2)));
+                s_buffer[(j * 2)] = _mm256_sub_ps(s_buffer[(j * 2)], _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)], 0, 0));
+                cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * j * 2)));
                 s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_sub_ps(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm256_store_ps(cons_buffer_tmp, s_buffer[(j * 2)]);
-                ((float*)priZ)[(incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-                ((float*)priZ)[((incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+                ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+                ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -5589,7 +5589,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               __m128 s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 2)));
+              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -5854,13 +5854,13 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += ((ptrdiff_t)incY * 12)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_4 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_5 = _mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5));
@@ -5902,8 +5902,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     if(i + 4 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -5929,11 +5929,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(_mm_add_ps(x_3, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -5947,7 +5947,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -5965,16 +5965,16 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += ((ptrdiff_t)incY * 12)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_4 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_5 = _mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5));
@@ -6016,8 +6016,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     if(i + 4 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -6043,11 +6043,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(x_3, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -6061,7 +6061,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -6079,7 +6079,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -6101,10 +6101,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += 12){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -6147,8 +6147,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -6176,10 +6176,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(_mm_add_ps(x_3, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -6194,7 +6194,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -6212,13 +6212,13 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += 12){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -6261,8 +6261,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -6290,10 +6290,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(x_3, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -6308,7 +6308,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -6326,7 +6326,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -6346,13 +6346,13 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += ((ptrdiff_t)incY * 12)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_4 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_5 = _mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5));
@@ -6392,10 +6392,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -6421,11 +6421,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(_mm_add_ps(x_3, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -6439,7 +6439,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -6457,16 +6457,16 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += ((ptrdiff_t)incY * 12)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_4 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_5 = _mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5));
@@ -6506,10 +6506,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -6535,11 +6535,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(x_3, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -6553,7 +6553,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -6571,7 +6571,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -6583,12 +6583,12 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -6609,8 +6609,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               __m128 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 4)));
+              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 4)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -7031,15 +7031,15 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += ((ptrdiff_t)incY * 16)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
                       x_3 = _mm_loadu_ps(((float*)x) + 12);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_5 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_6 = _mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5));
@@ -7125,8 +7125,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     if(i + 4 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -7168,11 +7168,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(x_3, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -7194,7 +7194,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -7220,18 +7220,18 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += ((ptrdiff_t)incY * 16)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
                       x_3 = _mm_loadu_ps(((float*)x) + 12);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_5 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_6 = _mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5));
@@ -7317,8 +7317,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     if(i + 4 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -7360,11 +7360,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(x_3, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -7386,7 +7386,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -7412,7 +7412,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -7434,11 +7434,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += 16){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -7526,8 +7526,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -7571,10 +7571,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(x_3, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -7597,7 +7597,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -7623,14 +7623,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += 16){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -7718,8 +7718,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -7763,10 +7763,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(x_3, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -7789,7 +7789,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -7815,7 +7815,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -7835,15 +7835,15 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_5 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_6 = _mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5));
@@ -7927,10 +7927,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -7972,11 +7972,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(x_3, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -7998,7 +7998,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -8024,18 +8024,18 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_5 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_6 = _mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5));
@@ -8119,10 +8119,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -8164,11 +8164,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_ps(x_3, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -8190,7 +8190,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -8216,7 +8216,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -8228,18 +8228,18 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 4)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -8261,9 +8261,9 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               __m128 s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 4)));
-              s_3_0 = s_3_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 6)));
+              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 4)));
+              s_3_0 = s_3_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 6)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -8564,11 +8564,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -8629,7 +8629,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -8659,7 +8659,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -8693,14 +8693,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -8761,7 +8761,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -8791,7 +8791,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -8825,7 +8825,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -8847,9 +8847,9 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -8911,7 +8911,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -8942,7 +8942,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -8976,12 +8976,12 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -9043,7 +9043,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -9074,7 +9074,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -9108,7 +9108,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -9128,11 +9128,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -9192,8 +9192,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -9223,7 +9223,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -9257,14 +9257,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -9324,8 +9324,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -9355,7 +9355,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -9389,7 +9389,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -9401,24 +9401,24 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 4)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(((float*)priZ)[((incpriZ * 6) + 1)], ((float*)priZ)[(incpriZ * 6)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 6)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 6)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 6)));
               s_3_0 = _mm_add_ps(s_3_0, _mm_sub_ps(s_3_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_3_0);
-              ((float*)priZ)[(incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -9438,7 +9438,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               __m128 s_buffer[(binned_SBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * j * 2)));
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * j * 2)));
               }
 
               if(incX == 1){
@@ -9684,11 +9684,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -9743,7 +9743,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -9773,7 +9773,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -9807,14 +9807,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -9849,7 +9849,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -9867,7 +9867,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -9889,7 +9889,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -9911,9 +9911,9 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -9969,7 +9969,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -10000,7 +10000,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -10034,12 +10034,12 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
@@ -10075,7 +10075,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -10094,7 +10094,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -10116,7 +10116,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -10136,11 +10136,11 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -10194,8 +10194,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -10225,7 +10225,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -10259,14 +10259,14 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_3 = _mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
@@ -10300,8 +10300,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5));
                       x_0 = _mm_xor_ps(_mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0)), conj_mask_tmp);
 
@@ -10319,7 +10319,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -10341,21 +10341,21 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = _mm_sub_ps(s_buffer[(j * 4)], _mm_set_ps(((float*)priZ)[((incpriZ * j * 2) + 1)], ((float*)priZ)[(incpriZ * j * 2)], 0, 0));
-                cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * j * 2)));
+                s_buffer[(j * 4)] = _mm_sub_ps(s_buffer[(j * 4)], _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)], 0, 0));
+                cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * j * 2)));
                 s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_sub_ps(s_buffer[((j * 4) + 1)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_sub_ps(s_buffer[((j * 4) + 2)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_sub_ps(s_buffer[((j * 4) + 3)], cons_tmp));
                 _mm_store_ps(cons_buffer_tmp, s_buffer[(j * 4)]);
-                ((float*)priZ)[(incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-                ((float*)priZ)[((incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+                ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+                ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -10386,10 +10386,10 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
 
               s_0_0 = s_0_2 = ((float*)priZ)[0];
               s_0_1 = s_0_3 = ((float*)priZ)[1];
-              s_1_0 = s_1_2 = ((float*)priZ)[(incpriZ * 2)];
-              s_1_1 = s_1_3 = ((float*)priZ)[((incpriZ * 2) + 1)];
-              s_2_0 = s_2_2 = ((float*)priZ)[(incpriZ * 4)];
-              s_2_1 = s_2_3 = ((float*)priZ)[((incpriZ * 4) + 1)];
+              s_1_0 = s_1_2 = ((float*)priZ)[((ptrdiff_t)incpriZ * 2)];
+              s_1_1 = s_1_3 = ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)];
+              s_2_0 = s_2_2 = ((float*)priZ)[((ptrdiff_t)incpriZ * 4)];
+              s_2_1 = s_2_3 = ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)];
 
               if(incX == 1){
                 if(incY == 1){
@@ -10588,7 +10588,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10660,7 +10660,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10760,7 +10760,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10832,7 +10832,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -10930,7 +10930,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11002,7 +11002,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11083,18 +11083,18 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               s_0_1 = s_0_1 + (s_0_3 - cons_tmp);
               ((float*)priZ)[0] = s_0_0;
               ((float*)priZ)[1] = s_0_1;
-              cons_tmp = ((float*)priZ)[(incpriZ * 2)];
+              cons_tmp = ((float*)priZ)[((ptrdiff_t)incpriZ * 2)];
               s_1_0 = s_1_0 + (s_1_2 - cons_tmp);
-              cons_tmp = ((float*)priZ)[((incpriZ * 2) + 1)];
+              cons_tmp = ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)];
               s_1_1 = s_1_1 + (s_1_3 - cons_tmp);
-              ((float*)priZ)[(incpriZ * 2)] = s_1_0;
-              ((float*)priZ)[((incpriZ * 2) + 1)] = s_1_1;
-              cons_tmp = ((float*)priZ)[(incpriZ * 4)];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = s_1_0;
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = s_1_1;
+              cons_tmp = ((float*)priZ)[((ptrdiff_t)incpriZ * 4)];
               s_2_0 = s_2_0 + (s_2_2 - cons_tmp);
-              cons_tmp = ((float*)priZ)[((incpriZ * 4) + 1)];
+              cons_tmp = ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)];
               s_2_1 = s_2_1 + (s_2_3 - cons_tmp);
-              ((float*)priZ)[(incpriZ * 4)] = s_2_0;
-              ((float*)priZ)[((incpriZ * 4) + 1)] = s_2_1;
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 4)] = s_2_0;
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = s_2_1;
 
             }
             break;
@@ -11111,8 +11111,8 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               float s_buffer[(binned_SBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 2)] = ((float*)priZ)[(incpriZ * j * 2)];
-                s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 3)] = ((float*)priZ)[((incpriZ * j * 2) + 1)];
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 2)] = ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)];
+                s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 3)] = ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)];
               }
 
               if(incX == 1){
@@ -11304,7 +11304,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11386,7 +11386,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11468,7 +11468,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11550,7 +11550,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11630,7 +11630,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11712,7 +11712,7 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -11770,12 +11770,12 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
               }
 
               for(j = 0; j < fold; j += 1){
-                cons_tmp = ((float*)priZ)[(incpriZ * j * 2)];
+                cons_tmp = ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)];
                 s_buffer[(j * 4)] = s_buffer[(j * 4)] + (s_buffer[((j * 4) + 2)] - cons_tmp);
-                cons_tmp = ((float*)priZ)[((incpriZ * j * 2) + 1)];
+                cons_tmp = ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)];
                 s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 1)] + (s_buffer[((j * 4) + 3)] - cons_tmp);
-                ((float*)priZ)[(incpriZ * j * 2)] = s_buffer[(j * 4)];
-                ((float*)priZ)[((incpriZ * j * 2) + 1)] = s_buffer[((j * 4) + 1)];
+                ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = s_buffer[(j * 4)];
+                ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = s_buffer[((j * 4) + 1)];
               }
 
             }
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index ded777a..a3176f2 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -156,7 +156,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               __m256 s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 2)));
+              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -421,13 +421,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += (incY * 24)){
+                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += ((ptrdiff_t)incY * 24)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -469,8 +469,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                     if(i + 8 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -496,11 +496,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(_mm256_add_ps(x_3, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -514,11 +514,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -532,16 +532,16 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += (incY * 24)){
+                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += ((ptrdiff_t)incY * 24)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -583,8 +583,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                     if(i + 8 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -610,11 +610,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -628,11 +628,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -646,7 +646,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -668,10 +668,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += 24){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24), y += 24){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -714,8 +714,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -743,10 +743,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(_mm256_add_ps(x_3, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -761,10 +761,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -779,13 +779,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += 24){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24), y += 24){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -828,8 +828,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -857,10 +857,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -875,10 +875,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -893,7 +893,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -913,13 +913,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += (incY * 24)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24), y += ((ptrdiff_t)incY * 24)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -959,10 +959,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -988,11 +988,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(_mm256_add_ps(x_3, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -1006,11 +1006,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -1024,16 +1024,16 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += (incY * 24)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24), y += ((ptrdiff_t)incY * 24)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -1073,10 +1073,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -1102,11 +1102,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -1120,11 +1120,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -1138,7 +1138,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -1150,12 +1150,12 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1176,8 +1176,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               __m256 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 4)));
+              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 4)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -1414,11 +1414,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += ((ptrdiff_t)incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -1463,7 +1463,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -1485,11 +1485,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -1511,14 +1511,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += ((ptrdiff_t)incY * 16)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -1563,7 +1563,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -1585,11 +1585,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -1611,7 +1611,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -1633,9 +1633,9 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += 16){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1681,7 +1681,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -1704,10 +1704,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -1730,12 +1730,12 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += 16){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -1781,7 +1781,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -1804,10 +1804,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -1830,7 +1830,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -1850,11 +1850,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -1898,8 +1898,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -1921,11 +1921,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -1947,14 +1947,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -1998,8 +1998,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -2021,11 +2021,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -2047,7 +2047,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -2059,18 +2059,18 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], ((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], ((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 4)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm256_add_ps(s_2_0, _mm256_sub_ps(s_2_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2092,9 +2092,9 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               __m256 s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 4)));
-              s_3_0 = s_3_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * 6)));
+              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 4)));
+              s_3_0 = s_3_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 6)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -3011,19 +3011,19 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 24 <= N_block; i += 24, x += 48, y += (incY * 48)){
+                    for(i = 0; i + 24 <= N_block; i += 24, x += 48, y += ((ptrdiff_t)incY * 48)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
                       x_3 = _mm256_loadu_ps(((float*)x) + 24);
                       x_4 = _mm256_loadu_ps(((float*)x) + 32);
                       x_5 = _mm256_loadu_ps(((float*)x) + 40);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
-                      y_4 = _mm256_set_ps(((float*)y)[((incY * 38) + 1)], ((float*)y)[(incY * 38)], ((float*)y)[((incY * 36) + 1)], ((float*)y)[(incY * 36)], ((float*)y)[((incY * 34) + 1)], ((float*)y)[(incY * 34)], ((float*)y)[((incY * 32) + 1)], ((float*)y)[(incY * 32)]);
-                      y_5 = _mm256_set_ps(((float*)y)[((incY * 46) + 1)], ((float*)y)[(incY * 46)], ((float*)y)[((incY * 44) + 1)], ((float*)y)[(incY * 44)], ((float*)y)[((incY * 42) + 1)], ((float*)y)[(incY * 42)], ((float*)y)[((incY * 40) + 1)], ((float*)y)[(incY * 40)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
+                      y_4 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 38) + 1)], ((float*)y)[((ptrdiff_t)incY * 38)], ((float*)y)[(((ptrdiff_t)incY * 36) + 1)], ((float*)y)[((ptrdiff_t)incY * 36)], ((float*)y)[(((ptrdiff_t)incY * 34) + 1)], ((float*)y)[((ptrdiff_t)incY * 34)], ((float*)y)[(((ptrdiff_t)incY * 32) + 1)], ((float*)y)[((ptrdiff_t)incY * 32)]);
+                      y_5 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 46) + 1)], ((float*)y)[((ptrdiff_t)incY * 46)], ((float*)y)[(((ptrdiff_t)incY * 44) + 1)], ((float*)y)[((ptrdiff_t)incY * 44)], ((float*)y)[(((ptrdiff_t)incY * 42) + 1)], ((float*)y)[((ptrdiff_t)incY * 42)], ((float*)y)[(((ptrdiff_t)incY * 40) + 1)], ((float*)y)[((ptrdiff_t)incY * 40)]);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_8 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -3199,10 +3199,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
                       x_3 = _mm256_loadu_ps(((float*)x) + 24);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -3316,13 +3316,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_7 = _mm256_add_ps(x_7, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += 32, y += (incY * 32);
+                      i += 16, x += 32, y += ((ptrdiff_t)incY * 32);
                     }
                     if(i + 8 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -3380,11 +3380,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -3414,11 +3414,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -3448,22 +3448,22 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, x += 48, y += (incY * 48)){
+                    for(i = 0; i + 24 <= N_block; i += 24, x += 48, y += ((ptrdiff_t)incY * 48)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
                       x_3 = _mm256_loadu_ps(((float*)x) + 24);
                       x_4 = _mm256_loadu_ps(((float*)x) + 32);
                       x_5 = _mm256_loadu_ps(((float*)x) + 40);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
-                      y_4 = _mm256_set_ps(((float*)y)[((incY * 38) + 1)], ((float*)y)[(incY * 38)], ((float*)y)[((incY * 36) + 1)], ((float*)y)[(incY * 36)], ((float*)y)[((incY * 34) + 1)], ((float*)y)[(incY * 34)], ((float*)y)[((incY * 32) + 1)], ((float*)y)[(incY * 32)]);
-                      y_5 = _mm256_set_ps(((float*)y)[((incY * 46) + 1)], ((float*)y)[(incY * 46)], ((float*)y)[((incY * 44) + 1)], ((float*)y)[(incY * 44)], ((float*)y)[((incY * 42) + 1)], ((float*)y)[(incY * 42)], ((float*)y)[((incY * 40) + 1)], ((float*)y)[(incY * 40)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
+                      y_4 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 38) + 1)], ((float*)y)[((ptrdiff_t)incY * 38)], ((float*)y)[(((ptrdiff_t)incY * 36) + 1)], ((float*)y)[((ptrdiff_t)incY * 36)], ((float*)y)[(((ptrdiff_t)incY * 34) + 1)], ((float*)y)[((ptrdiff_t)incY * 34)], ((float*)y)[(((ptrdiff_t)incY * 32) + 1)], ((float*)y)[((ptrdiff_t)incY * 32)]);
+                      y_5 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 46) + 1)], ((float*)y)[((ptrdiff_t)incY * 46)], ((float*)y)[(((ptrdiff_t)incY * 44) + 1)], ((float*)y)[((ptrdiff_t)incY * 44)], ((float*)y)[(((ptrdiff_t)incY * 42) + 1)], ((float*)y)[((ptrdiff_t)incY * 42)], ((float*)y)[(((ptrdiff_t)incY * 40) + 1)], ((float*)y)[((ptrdiff_t)incY * 40)]);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_8 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -3639,10 +3639,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
                       x_3 = _mm256_loadu_ps(((float*)x) + 24);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -3756,13 +3756,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_7 = _mm256_add_ps(x_7, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += 32, y += (incY * 32);
+                      i += 16, x += 32, y += ((ptrdiff_t)incY * 32);
                     }
                     if(i + 8 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -3820,11 +3820,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -3854,11 +3854,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -3888,7 +3888,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -3910,13 +3910,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48), y += 48){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                      x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48), y += 48){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                      x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -4094,10 +4094,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -4215,11 +4215,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_7 = _mm256_add_ps(x_7, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += (incX * 32), y += 32;
+                      i += 16, x += ((ptrdiff_t)incX * 32), y += 32;
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -4279,10 +4279,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -4313,10 +4313,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -4347,16 +4347,16 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48), y += 48){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                      x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48), y += 48){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                      x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -4534,10 +4534,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -4655,11 +4655,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_7 = _mm256_add_ps(x_7, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += (incX * 32), y += 32;
+                      i += 16, x += ((ptrdiff_t)incX * 32), y += 32;
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -4719,10 +4719,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -4753,10 +4753,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -4787,7 +4787,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -4807,19 +4807,19 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48), y += (incY * 48)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                      x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
-                      y_4 = _mm256_set_ps(((float*)y)[((incY * 38) + 1)], ((float*)y)[(incY * 38)], ((float*)y)[((incY * 36) + 1)], ((float*)y)[(incY * 36)], ((float*)y)[((incY * 34) + 1)], ((float*)y)[(incY * 34)], ((float*)y)[((incY * 32) + 1)], ((float*)y)[(incY * 32)]);
-                      y_5 = _mm256_set_ps(((float*)y)[((incY * 46) + 1)], ((float*)y)[(incY * 46)], ((float*)y)[((incY * 44) + 1)], ((float*)y)[(incY * 44)], ((float*)y)[((incY * 42) + 1)], ((float*)y)[(incY * 42)], ((float*)y)[((incY * 40) + 1)], ((float*)y)[(incY * 40)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48), y += ((ptrdiff_t)incY * 48)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                      x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
+                      y_4 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 38) + 1)], ((float*)y)[((ptrdiff_t)incY * 38)], ((float*)y)[(((ptrdiff_t)incY * 36) + 1)], ((float*)y)[((ptrdiff_t)incY * 36)], ((float*)y)[(((ptrdiff_t)incY * 34) + 1)], ((float*)y)[((ptrdiff_t)incY * 34)], ((float*)y)[(((ptrdiff_t)incY * 32) + 1)], ((float*)y)[((ptrdiff_t)incY * 32)]);
+                      y_5 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 46) + 1)], ((float*)y)[((ptrdiff_t)incY * 46)], ((float*)y)[(((ptrdiff_t)incY * 44) + 1)], ((float*)y)[((ptrdiff_t)incY * 44)], ((float*)y)[(((ptrdiff_t)incY * 42) + 1)], ((float*)y)[((ptrdiff_t)incY * 42)], ((float*)y)[(((ptrdiff_t)incY * 40) + 1)], ((float*)y)[((ptrdiff_t)incY * 40)]);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_8 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -4991,14 +4991,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -5112,13 +5112,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_7 = _mm256_add_ps(x_7, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += (incX * 32), y += (incY * 32);
+                      i += 16, x += ((ptrdiff_t)incX * 32), y += ((ptrdiff_t)incY * 32);
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -5176,11 +5176,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -5210,11 +5210,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -5244,22 +5244,22 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48), y += (incY * 48)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                      x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
-                      y_4 = _mm256_set_ps(((float*)y)[((incY * 38) + 1)], ((float*)y)[(incY * 38)], ((float*)y)[((incY * 36) + 1)], ((float*)y)[(incY * 36)], ((float*)y)[((incY * 34) + 1)], ((float*)y)[(incY * 34)], ((float*)y)[((incY * 32) + 1)], ((float*)y)[(incY * 32)]);
-                      y_5 = _mm256_set_ps(((float*)y)[((incY * 46) + 1)], ((float*)y)[(incY * 46)], ((float*)y)[((incY * 44) + 1)], ((float*)y)[(incY * 44)], ((float*)y)[((incY * 42) + 1)], ((float*)y)[(incY * 42)], ((float*)y)[((incY * 40) + 1)], ((float*)y)[(incY * 40)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48), y += ((ptrdiff_t)incY * 48)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                      x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
+                      y_4 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 38) + 1)], ((float*)y)[((ptrdiff_t)incY * 38)], ((float*)y)[(((ptrdiff_t)incY * 36) + 1)], ((float*)y)[((ptrdiff_t)incY * 36)], ((float*)y)[(((ptrdiff_t)incY * 34) + 1)], ((float*)y)[((ptrdiff_t)incY * 34)], ((float*)y)[(((ptrdiff_t)incY * 32) + 1)], ((float*)y)[((ptrdiff_t)incY * 32)]);
+                      y_5 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 46) + 1)], ((float*)y)[((ptrdiff_t)incY * 46)], ((float*)y)[(((ptrdiff_t)incY * 44) + 1)], ((float*)y)[((ptrdiff_t)incY * 44)], ((float*)y)[(((ptrdiff_t)incY * 42) + 1)], ((float*)y)[((ptrdiff_t)incY * 42)], ((float*)y)[(((ptrdiff_t)incY * 40) + 1)], ((float*)y)[((ptrdiff_t)incY * 40)]);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_8 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -5431,14 +5431,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_11, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -5552,13 +5552,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_7 = _mm256_add_ps(x_7, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_6, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += (incX * 32), y += (incY * 32);
+                      i += 16, x += ((ptrdiff_t)incX * 32), y += ((ptrdiff_t)incY * 32);
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -5616,11 +5616,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_2, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -5650,11 +5650,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -5684,7 +5684,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_1);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -5696,24 +5696,24 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], ((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], ((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], ((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 4)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm256_add_ps(s_2_0, _mm256_sub_ps(s_2_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(((float*)priZ)[((incpriZ * 6) + 1)], ((float*)priZ)[(incpriZ * 6)], ((float*)priZ)[((incpriZ * 6) + 1)], ((float*)priZ)[(incpriZ * 6)], ((float*)priZ)[((incpriZ * 6) + 1)], ((float*)priZ)[(incpriZ * 6)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * 6)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 6)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 6)], ((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 6)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 6)));
               s_3_0 = _mm256_add_ps(s_3_0, _mm256_sub_ps(s_3_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_3_0);
-              ((float*)priZ)[(incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priZ)[((incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -5733,7 +5733,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               __m256 s_buffer[(binned_SBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + (incpriZ * j * 2)));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = (__m256)_mm256_broadcast_sd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * j * 2)));
               }
 
               if(incX == 1){
@@ -6547,7 +6547,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 32 <= N_block; i += 32, x += 64, y += (incY * 64)){
+                    for(i = 0; i + 32 <= N_block; i += 32, x += 64, y += ((ptrdiff_t)incY * 64)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -6556,14 +6556,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_5 = _mm256_loadu_ps(((float*)x) + 40);
                       x_6 = _mm256_loadu_ps(((float*)x) + 48);
                       x_7 = _mm256_loadu_ps(((float*)x) + 56);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
-                      y_4 = _mm256_set_ps(((float*)y)[((incY * 38) + 1)], ((float*)y)[(incY * 38)], ((float*)y)[((incY * 36) + 1)], ((float*)y)[(incY * 36)], ((float*)y)[((incY * 34) + 1)], ((float*)y)[(incY * 34)], ((float*)y)[((incY * 32) + 1)], ((float*)y)[(incY * 32)]);
-                      y_5 = _mm256_set_ps(((float*)y)[((incY * 46) + 1)], ((float*)y)[(incY * 46)], ((float*)y)[((incY * 44) + 1)], ((float*)y)[(incY * 44)], ((float*)y)[((incY * 42) + 1)], ((float*)y)[(incY * 42)], ((float*)y)[((incY * 40) + 1)], ((float*)y)[(incY * 40)]);
-                      y_6 = _mm256_set_ps(((float*)y)[((incY * 54) + 1)], ((float*)y)[(incY * 54)], ((float*)y)[((incY * 52) + 1)], ((float*)y)[(incY * 52)], ((float*)y)[((incY * 50) + 1)], ((float*)y)[(incY * 50)], ((float*)y)[((incY * 48) + 1)], ((float*)y)[(incY * 48)]);
-                      y_7 = _mm256_set_ps(((float*)y)[((incY * 62) + 1)], ((float*)y)[(incY * 62)], ((float*)y)[((incY * 60) + 1)], ((float*)y)[(incY * 60)], ((float*)y)[((incY * 58) + 1)], ((float*)y)[(incY * 58)], ((float*)y)[((incY * 56) + 1)], ((float*)y)[(incY * 56)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
+                      y_4 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 38) + 1)], ((float*)y)[((ptrdiff_t)incY * 38)], ((float*)y)[(((ptrdiff_t)incY * 36) + 1)], ((float*)y)[((ptrdiff_t)incY * 36)], ((float*)y)[(((ptrdiff_t)incY * 34) + 1)], ((float*)y)[((ptrdiff_t)incY * 34)], ((float*)y)[(((ptrdiff_t)incY * 32) + 1)], ((float*)y)[((ptrdiff_t)incY * 32)]);
+                      y_5 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 46) + 1)], ((float*)y)[((ptrdiff_t)incY * 46)], ((float*)y)[(((ptrdiff_t)incY * 44) + 1)], ((float*)y)[((ptrdiff_t)incY * 44)], ((float*)y)[(((ptrdiff_t)incY * 42) + 1)], ((float*)y)[((ptrdiff_t)incY * 42)], ((float*)y)[(((ptrdiff_t)incY * 40) + 1)], ((float*)y)[((ptrdiff_t)incY * 40)]);
+                      y_6 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 54) + 1)], ((float*)y)[((ptrdiff_t)incY * 54)], ((float*)y)[(((ptrdiff_t)incY * 52) + 1)], ((float*)y)[((ptrdiff_t)incY * 52)], ((float*)y)[(((ptrdiff_t)incY * 50) + 1)], ((float*)y)[((ptrdiff_t)incY * 50)], ((float*)y)[(((ptrdiff_t)incY * 48) + 1)], ((float*)y)[((ptrdiff_t)incY * 48)]);
+                      y_7 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 62) + 1)], ((float*)y)[((ptrdiff_t)incY * 62)], ((float*)y)[(((ptrdiff_t)incY * 60) + 1)], ((float*)y)[((ptrdiff_t)incY * 60)], ((float*)y)[(((ptrdiff_t)incY * 58) + 1)], ((float*)y)[((ptrdiff_t)incY * 58)], ((float*)y)[(((ptrdiff_t)incY * 56) + 1)], ((float*)y)[((ptrdiff_t)incY * 56)]);
                       x_8 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_9 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_10 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -6779,10 +6779,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
                       x_3 = _mm256_loadu_ps(((float*)x) + 24);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -6888,13 +6888,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += 32, y += (incY * 32);
+                      i += 16, x += 32, y += ((ptrdiff_t)incY * 32);
                     }
                     if(i + 8 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -6948,11 +6948,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -6980,11 +6980,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -7012,10 +7012,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, x += 64, y += (incY * 64)){
+                    for(i = 0; i + 32 <= N_block; i += 32, x += 64, y += ((ptrdiff_t)incY * 64)){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
@@ -7024,14 +7024,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_5 = _mm256_loadu_ps(((float*)x) + 40);
                       x_6 = _mm256_loadu_ps(((float*)x) + 48);
                       x_7 = _mm256_loadu_ps(((float*)x) + 56);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
-                      y_4 = _mm256_set_ps(((float*)y)[((incY * 38) + 1)], ((float*)y)[(incY * 38)], ((float*)y)[((incY * 36) + 1)], ((float*)y)[(incY * 36)], ((float*)y)[((incY * 34) + 1)], ((float*)y)[(incY * 34)], ((float*)y)[((incY * 32) + 1)], ((float*)y)[(incY * 32)]);
-                      y_5 = _mm256_set_ps(((float*)y)[((incY * 46) + 1)], ((float*)y)[(incY * 46)], ((float*)y)[((incY * 44) + 1)], ((float*)y)[(incY * 44)], ((float*)y)[((incY * 42) + 1)], ((float*)y)[(incY * 42)], ((float*)y)[((incY * 40) + 1)], ((float*)y)[(incY * 40)]);
-                      y_6 = _mm256_set_ps(((float*)y)[((incY * 54) + 1)], ((float*)y)[(incY * 54)], ((float*)y)[((incY * 52) + 1)], ((float*)y)[(incY * 52)], ((float*)y)[((incY * 50) + 1)], ((float*)y)[(incY * 50)], ((float*)y)[((incY * 48) + 1)], ((float*)y)[(incY * 48)]);
-                      y_7 = _mm256_set_ps(((float*)y)[((incY * 62) + 1)], ((float*)y)[(incY * 62)], ((float*)y)[((incY * 60) + 1)], ((float*)y)[(incY * 60)], ((float*)y)[((incY * 58) + 1)], ((float*)y)[(incY * 58)], ((float*)y)[((incY * 56) + 1)], ((float*)y)[(incY * 56)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
+                      y_4 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 38) + 1)], ((float*)y)[((ptrdiff_t)incY * 38)], ((float*)y)[(((ptrdiff_t)incY * 36) + 1)], ((float*)y)[((ptrdiff_t)incY * 36)], ((float*)y)[(((ptrdiff_t)incY * 34) + 1)], ((float*)y)[((ptrdiff_t)incY * 34)], ((float*)y)[(((ptrdiff_t)incY * 32) + 1)], ((float*)y)[((ptrdiff_t)incY * 32)]);
+                      y_5 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 46) + 1)], ((float*)y)[((ptrdiff_t)incY * 46)], ((float*)y)[(((ptrdiff_t)incY * 44) + 1)], ((float*)y)[((ptrdiff_t)incY * 44)], ((float*)y)[(((ptrdiff_t)incY * 42) + 1)], ((float*)y)[((ptrdiff_t)incY * 42)], ((float*)y)[(((ptrdiff_t)incY * 40) + 1)], ((float*)y)[((ptrdiff_t)incY * 40)]);
+                      y_6 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 54) + 1)], ((float*)y)[((ptrdiff_t)incY * 54)], ((float*)y)[(((ptrdiff_t)incY * 52) + 1)], ((float*)y)[((ptrdiff_t)incY * 52)], ((float*)y)[(((ptrdiff_t)incY * 50) + 1)], ((float*)y)[((ptrdiff_t)incY * 50)], ((float*)y)[(((ptrdiff_t)incY * 48) + 1)], ((float*)y)[((ptrdiff_t)incY * 48)]);
+                      y_7 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 62) + 1)], ((float*)y)[((ptrdiff_t)incY * 62)], ((float*)y)[(((ptrdiff_t)incY * 60) + 1)], ((float*)y)[((ptrdiff_t)incY * 60)], ((float*)y)[(((ptrdiff_t)incY * 58) + 1)], ((float*)y)[((ptrdiff_t)incY * 58)], ((float*)y)[(((ptrdiff_t)incY * 56) + 1)], ((float*)y)[((ptrdiff_t)incY * 56)]);
                       x_8 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_9 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_10 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -7167,10 +7167,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
                       x_2 = _mm256_loadu_ps(((float*)x) + 16);
                       x_3 = _mm256_loadu_ps(((float*)x) + 24);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -7236,13 +7236,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += 32, y += (incY * 32);
+                      i += 16, x += 32, y += ((ptrdiff_t)incY * 32);
                     }
                     if(i + 8 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
                       x_1 = _mm256_loadu_ps(((float*)x) + 8);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -7276,11 +7276,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_ps(((float*)x));
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -7298,11 +7298,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[2]:0, (N_block - i)>1?((double*)((float*)x))[1]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -7320,7 +7320,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -7342,15 +7342,15 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64), y += 64){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                      x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                      x_6 = _mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]);
-                      x_7 = _mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64), y += 64){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                      x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                      x_6 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]);
+                      x_7 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -7570,10 +7570,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -7683,11 +7683,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += (incX * 32), y += 32;
+                      i += 16, x += ((ptrdiff_t)incX * 32), y += 32;
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -7743,10 +7743,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -7775,10 +7775,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -7807,18 +7807,18 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64), y += 64){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                      x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                      x_6 = _mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]);
-                      x_7 = _mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64), y += 64){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                      x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                      x_6 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]);
+                      x_7 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -7958,10 +7958,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       y_2 = _mm256_loadu_ps(((float*)y) + 16);
@@ -8031,11 +8031,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += (incX * 32), y += 32;
+                      i += 16, x += ((ptrdiff_t)incX * 32), y += 32;
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       y_1 = _mm256_loadu_ps(((float*)y) + 8);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
@@ -8071,10 +8071,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm256_loadu_ps(((float*)y));
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -8093,10 +8093,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
                       y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[2]:0, (N_block - i)>1?((double*)((float*)y))[1]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -8115,7 +8115,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -8135,23 +8135,23 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64), y += (incY * 64)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                      x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                      x_6 = _mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]);
-                      x_7 = _mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
-                      y_4 = _mm256_set_ps(((float*)y)[((incY * 38) + 1)], ((float*)y)[(incY * 38)], ((float*)y)[((incY * 36) + 1)], ((float*)y)[(incY * 36)], ((float*)y)[((incY * 34) + 1)], ((float*)y)[(incY * 34)], ((float*)y)[((incY * 32) + 1)], ((float*)y)[(incY * 32)]);
-                      y_5 = _mm256_set_ps(((float*)y)[((incY * 46) + 1)], ((float*)y)[(incY * 46)], ((float*)y)[((incY * 44) + 1)], ((float*)y)[(incY * 44)], ((float*)y)[((incY * 42) + 1)], ((float*)y)[(incY * 42)], ((float*)y)[((incY * 40) + 1)], ((float*)y)[(incY * 40)]);
-                      y_6 = _mm256_set_ps(((float*)y)[((incY * 54) + 1)], ((float*)y)[(incY * 54)], ((float*)y)[((incY * 52) + 1)], ((float*)y)[(incY * 52)], ((float*)y)[((incY * 50) + 1)], ((float*)y)[(incY * 50)], ((float*)y)[((incY * 48) + 1)], ((float*)y)[(incY * 48)]);
-                      y_7 = _mm256_set_ps(((float*)y)[((incY * 62) + 1)], ((float*)y)[(incY * 62)], ((float*)y)[((incY * 60) + 1)], ((float*)y)[(incY * 60)], ((float*)y)[((incY * 58) + 1)], ((float*)y)[(incY * 58)], ((float*)y)[((incY * 56) + 1)], ((float*)y)[(incY * 56)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64), y += ((ptrdiff_t)incY * 64)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                      x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                      x_6 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]);
+                      x_7 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
+                      y_4 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 38) + 1)], ((float*)y)[((ptrdiff_t)incY * 38)], ((float*)y)[(((ptrdiff_t)incY * 36) + 1)], ((float*)y)[((ptrdiff_t)incY * 36)], ((float*)y)[(((ptrdiff_t)incY * 34) + 1)], ((float*)y)[((ptrdiff_t)incY * 34)], ((float*)y)[(((ptrdiff_t)incY * 32) + 1)], ((float*)y)[((ptrdiff_t)incY * 32)]);
+                      y_5 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 46) + 1)], ((float*)y)[((ptrdiff_t)incY * 46)], ((float*)y)[(((ptrdiff_t)incY * 44) + 1)], ((float*)y)[((ptrdiff_t)incY * 44)], ((float*)y)[(((ptrdiff_t)incY * 42) + 1)], ((float*)y)[((ptrdiff_t)incY * 42)], ((float*)y)[(((ptrdiff_t)incY * 40) + 1)], ((float*)y)[((ptrdiff_t)incY * 40)]);
+                      y_6 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 54) + 1)], ((float*)y)[((ptrdiff_t)incY * 54)], ((float*)y)[(((ptrdiff_t)incY * 52) + 1)], ((float*)y)[((ptrdiff_t)incY * 52)], ((float*)y)[(((ptrdiff_t)incY * 50) + 1)], ((float*)y)[((ptrdiff_t)incY * 50)], ((float*)y)[(((ptrdiff_t)incY * 48) + 1)], ((float*)y)[((ptrdiff_t)incY * 48)]);
+                      y_7 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 62) + 1)], ((float*)y)[((ptrdiff_t)incY * 62)], ((float*)y)[(((ptrdiff_t)incY * 60) + 1)], ((float*)y)[((ptrdiff_t)incY * 60)], ((float*)y)[(((ptrdiff_t)incY * 58) + 1)], ((float*)y)[((ptrdiff_t)incY * 58)], ((float*)y)[(((ptrdiff_t)incY * 56) + 1)], ((float*)y)[((ptrdiff_t)incY * 56)]);
                       x_8 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_9 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_10 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -8363,14 +8363,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -8476,13 +8476,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += (incX * 32), y += (incY * 32);
+                      i += 16, x += ((ptrdiff_t)incX * 32), y += ((ptrdiff_t)incY * 32);
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -8536,11 +8536,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -8568,11 +8568,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -8600,26 +8600,26 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64), y += (incY * 64)){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                      x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                      x_6 = _mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]);
-                      x_7 = _mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
-                      y_4 = _mm256_set_ps(((float*)y)[((incY * 38) + 1)], ((float*)y)[(incY * 38)], ((float*)y)[((incY * 36) + 1)], ((float*)y)[(incY * 36)], ((float*)y)[((incY * 34) + 1)], ((float*)y)[(incY * 34)], ((float*)y)[((incY * 32) + 1)], ((float*)y)[(incY * 32)]);
-                      y_5 = _mm256_set_ps(((float*)y)[((incY * 46) + 1)], ((float*)y)[(incY * 46)], ((float*)y)[((incY * 44) + 1)], ((float*)y)[(incY * 44)], ((float*)y)[((incY * 42) + 1)], ((float*)y)[(incY * 42)], ((float*)y)[((incY * 40) + 1)], ((float*)y)[(incY * 40)]);
-                      y_6 = _mm256_set_ps(((float*)y)[((incY * 54) + 1)], ((float*)y)[(incY * 54)], ((float*)y)[((incY * 52) + 1)], ((float*)y)[(incY * 52)], ((float*)y)[((incY * 50) + 1)], ((float*)y)[(incY * 50)], ((float*)y)[((incY * 48) + 1)], ((float*)y)[(incY * 48)]);
-                      y_7 = _mm256_set_ps(((float*)y)[((incY * 62) + 1)], ((float*)y)[(incY * 62)], ((float*)y)[((incY * 60) + 1)], ((float*)y)[(incY * 60)], ((float*)y)[((incY * 58) + 1)], ((float*)y)[(incY * 58)], ((float*)y)[((incY * 56) + 1)], ((float*)y)[(incY * 56)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64), y += ((ptrdiff_t)incY * 64)){
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                      x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                      x_6 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]);
+                      x_7 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
+                      y_4 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 38) + 1)], ((float*)y)[((ptrdiff_t)incY * 38)], ((float*)y)[(((ptrdiff_t)incY * 36) + 1)], ((float*)y)[((ptrdiff_t)incY * 36)], ((float*)y)[(((ptrdiff_t)incY * 34) + 1)], ((float*)y)[((ptrdiff_t)incY * 34)], ((float*)y)[(((ptrdiff_t)incY * 32) + 1)], ((float*)y)[((ptrdiff_t)incY * 32)]);
+                      y_5 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 46) + 1)], ((float*)y)[((ptrdiff_t)incY * 46)], ((float*)y)[(((ptrdiff_t)incY * 44) + 1)], ((float*)y)[((ptrdiff_t)incY * 44)], ((float*)y)[(((ptrdiff_t)incY * 42) + 1)], ((float*)y)[((ptrdiff_t)incY * 42)], ((float*)y)[(((ptrdiff_t)incY * 40) + 1)], ((float*)y)[((ptrdiff_t)incY * 40)]);
+                      y_6 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 54) + 1)], ((float*)y)[((ptrdiff_t)incY * 54)], ((float*)y)[(((ptrdiff_t)incY * 52) + 1)], ((float*)y)[((ptrdiff_t)incY * 52)], ((float*)y)[(((ptrdiff_t)incY * 50) + 1)], ((float*)y)[((ptrdiff_t)incY * 50)], ((float*)y)[(((ptrdiff_t)incY * 48) + 1)], ((float*)y)[((ptrdiff_t)incY * 48)]);
+                      y_7 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 62) + 1)], ((float*)y)[((ptrdiff_t)incY * 62)], ((float*)y)[(((ptrdiff_t)incY * 60) + 1)], ((float*)y)[((ptrdiff_t)incY * 60)], ((float*)y)[(((ptrdiff_t)incY * 58) + 1)], ((float*)y)[((ptrdiff_t)incY * 58)], ((float*)y)[(((ptrdiff_t)incY * 56) + 1)], ((float*)y)[((ptrdiff_t)incY * 56)]);
                       x_8 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_9 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_10 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -8751,14 +8751,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_15, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_2 = _mm256_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)], ((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_3 = _mm256_set_ps(((float*)y)[((incY * 30) + 1)], ((float*)y)[(incY * 30)], ((float*)y)[((incY * 28) + 1)], ((float*)y)[(incY * 28)], ((float*)y)[((incY * 26) + 1)], ((float*)y)[(incY * 26)], ((float*)y)[((incY * 24) + 1)], ((float*)y)[(incY * 24)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_2 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)], ((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_3 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 30) + 1)], ((float*)y)[((ptrdiff_t)incY * 30)], ((float*)y)[(((ptrdiff_t)incY * 28) + 1)], ((float*)y)[((ptrdiff_t)incY * 28)], ((float*)y)[(((ptrdiff_t)incY * 26) + 1)], ((float*)y)[((ptrdiff_t)incY * 26)], ((float*)y)[(((ptrdiff_t)incY * 24) + 1)], ((float*)y)[((ptrdiff_t)incY * 24)]);
                       x_4 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_2, 0xB1), _mm256_permute_ps(y_2, 0xF5)), nconj_mask_tmp);
@@ -8824,13 +8824,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_7, blp_mask_tmp));
-                      i += 16, x += (incX * 32), y += (incY * 32);
+                      i += 16, x += ((ptrdiff_t)incX * 32), y += ((ptrdiff_t)incY * 32);
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm256_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)], ((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)], ((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
                       x_2 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_1, 0xB1), _mm256_permute_ps(y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
@@ -8864,11 +8864,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_3, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm256_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)], ((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm256_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)], ((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -8886,11 +8886,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
-                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[(incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[incY]:0, ((double*)((float*)y))[0]);
+                      x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
+                      y_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)y))[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?((double*)((float*)y))[(ptrdiff_t)incY]:0, ((double*)((float*)y))[0]);
                       x_1 = _mm256_xor_ps(_mm256_mul_ps(_mm256_permute_ps(x_0, 0xB1), _mm256_permute_ps(y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm256_mul_ps(x_0, _mm256_permute_ps(y_0, 0xA0));
 
@@ -8908,19 +8908,19 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm256_sub_ps(s_buffer[(j * 2)], _mm256_set_ps(((float*)priZ)[((incpriZ * j * 2) + 1)], ((float*)priZ)[(incpriZ * j * 2)], ((float*)priZ)[((incpriZ * j * 2) + 1)], ((float*)priZ)[(incpriZ * j * 2)], ((float*)priZ)[((incpriZ * j * 2) + 1)], ((float*)priZ)[(incpriZ * j * 2)], 0, 0));
-                cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + (incpriZ * j * 2)));
+                s_buffer[(j * 2)] = _mm256_sub_ps(s_buffer[(j * 2)], _mm256_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)], ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)], 0, 0));
+                cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * j * 2)));
                 s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_sub_ps(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm256_store_ps(cons_buffer_tmp, s_buffer[(j * 2)]);
-                ((float*)priZ)[(incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-                ((float*)priZ)[((incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+                ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+                ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -8965,7 +8965,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               __m128 s_1_0, s_1_1, s_1_2, s_1_3;
 
               s_0_0 = s_0_1 = s_0_2 = s_0_3 = (__m128)_mm_load1_pd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = s_1_2 = s_1_3 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 2)));
+              s_1_0 = s_1_1 = s_1_2 = s_1_3 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -9434,19 +9434,19 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += (incY * 24)){
+                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += ((ptrdiff_t)incY * 24)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
                       x_3 = _mm_loadu_ps(((float*)x) + 12);
                       x_4 = _mm_loadu_ps(((float*)x) + 16);
                       x_5 = _mm_loadu_ps(((float*)x) + 20);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
-                      y_4 = _mm_set_ps(((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_5 = _mm_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
+                      y_4 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_5 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)]);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_8 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -9526,10 +9526,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
                       x_3 = _mm_loadu_ps(((float*)x) + 12);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -9579,13 +9579,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_6, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -9611,11 +9611,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -9629,7 +9629,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -9647,22 +9647,22 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += (incY * 24)){
+                    for(i = 0; i + 12 <= N_block; i += 12, x += 24, y += ((ptrdiff_t)incY * 24)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
                       x_3 = _mm_loadu_ps(((float*)x) + 12);
                       x_4 = _mm_loadu_ps(((float*)x) + 16);
                       x_5 = _mm_loadu_ps(((float*)x) + 20);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
-                      y_4 = _mm_set_ps(((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_5 = _mm_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
+                      y_4 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_5 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)]);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_8 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -9742,10 +9742,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
                       x_3 = _mm_loadu_ps(((float*)x) + 12);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -9795,13 +9795,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_6, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -9827,11 +9827,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -9845,7 +9845,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -9863,7 +9863,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -9885,13 +9885,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += 24){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_5 = _mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24), y += 24){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_5 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -9973,10 +9973,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -10030,11 +10030,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_6, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -10062,10 +10062,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -10080,7 +10080,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -10098,16 +10098,16 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += 24){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_5 = _mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24), y += 24){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_5 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -10189,10 +10189,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -10246,11 +10246,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_6, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -10278,10 +10278,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -10296,7 +10296,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -10314,7 +10314,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -10334,19 +10334,19 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += (incY * 24)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_5 = _mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
-                      y_4 = _mm_set_ps(((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_5 = _mm_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24), y += ((ptrdiff_t)incY * 24)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_5 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
+                      y_4 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_5 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)]);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_8 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -10422,14 +10422,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -10479,13 +10479,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_6, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -10511,11 +10511,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -10529,7 +10529,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -10547,22 +10547,22 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24), y += (incY * 24)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      x_5 = _mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
-                      y_4 = _mm_set_ps(((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
-                      y_5 = _mm_set_ps(((float*)y)[((incY * 22) + 1)], ((float*)y)[(incY * 22)], ((float*)y)[((incY * 20) + 1)], ((float*)y)[(incY * 20)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24), y += ((ptrdiff_t)incY * 24)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      x_5 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
+                      y_4 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
+                      y_5 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 22) + 1)], ((float*)y)[((ptrdiff_t)incY * 22)], ((float*)y)[(((ptrdiff_t)incY * 20) + 1)], ((float*)y)[((ptrdiff_t)incY * 20)]);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_8 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -10638,14 +10638,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_11, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -10695,13 +10695,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_5, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_6, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -10727,11 +10727,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
                       s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(x_2, blp_mask_tmp));
                       s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -10745,7 +10745,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -10763,7 +10763,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -10777,14 +10777,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_2, cons_tmp));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_3, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -10805,8 +10805,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               __m128 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 4)));
+              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 4)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -11043,11 +11043,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -11092,7 +11092,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -11114,7 +11114,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -11140,14 +11140,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -11192,7 +11192,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -11214,7 +11214,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -11240,7 +11240,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -11262,9 +11262,9 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -11310,7 +11310,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -11333,7 +11333,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -11359,12 +11359,12 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -11410,7 +11410,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -11433,7 +11433,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -11459,7 +11459,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -11479,11 +11479,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -11527,8 +11527,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -11550,7 +11550,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -11576,14 +11576,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -11627,8 +11627,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -11650,7 +11650,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -11676,7 +11676,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -11688,18 +11688,18 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 4)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -11721,9 +11721,9 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               __m128 s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ)));
-              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 4)));
-              s_3_0 = s_3_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * 6)));
+              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 4)));
+              s_3_0 = s_3_1 = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * 6)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -12024,11 +12024,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -12089,7 +12089,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -12119,7 +12119,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -12153,14 +12153,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -12221,7 +12221,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -12251,7 +12251,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -12285,7 +12285,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -12307,9 +12307,9 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -12371,7 +12371,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -12402,7 +12402,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -12436,12 +12436,12 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -12503,7 +12503,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -12534,7 +12534,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -12568,7 +12568,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -12588,11 +12588,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -12652,8 +12652,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -12683,7 +12683,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -12717,14 +12717,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -12784,8 +12784,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -12815,7 +12815,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -12849,7 +12849,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_ps(x_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -12861,24 +12861,24 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((float*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[((incpriZ * 2) + 1)], ((float*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priZ)[((incpriZ * 4) + 1)], ((float*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 4)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(((float*)priZ)[((incpriZ * 6) + 1)], ((float*)priZ)[(incpriZ * 6)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * 6)));
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * 6)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * 6)));
               s_3_0 = _mm_add_ps(s_3_0, _mm_sub_ps(s_3_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_3_0);
-              ((float*)priZ)[(incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priZ)[((incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -12898,7 +12898,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               __m128 s_buffer[(binned_SBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = (__m128)_mm_load1_pd((double *)(((float*)priZ) + (incpriZ * j * 2)));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = (__m128)_mm_load1_pd((double *)(((float*)priZ) + ((ptrdiff_t)incpriZ * j * 2)));
               }
 
               if(incX == 1){
@@ -13574,17 +13574,17 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 10 <= N_block; i += 10, x += 20, y += (incY * 20)){
+                    for(i = 0; i + 10 <= N_block; i += 10, x += 20, y += ((ptrdiff_t)incY * 20)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
                       x_3 = _mm_loadu_ps(((float*)x) + 12);
                       x_4 = _mm_loadu_ps(((float*)x) + 16);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
-                      y_4 = _mm_set_ps(((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
+                      y_4 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -13722,10 +13722,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
                       x_3 = _mm_loadu_ps(((float*)x) + 12);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -13831,13 +13831,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -13891,11 +13891,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -13923,7 +13923,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -13955,20 +13955,20 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 10 <= N_block; i += 10, x += 20, y += (incY * 20)){
+                    for(i = 0; i + 10 <= N_block; i += 10, x += 20, y += ((ptrdiff_t)incY * 20)){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
                       x_3 = _mm_loadu_ps(((float*)x) + 12);
                       x_4 = _mm_loadu_ps(((float*)x) + 16);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
-                      y_4 = _mm_set_ps(((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
+                      y_4 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -14056,10 +14056,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
                       x_2 = _mm_loadu_ps(((float*)x) + 8);
                       x_3 = _mm_loadu_ps(((float*)x) + 12);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -14125,13 +14125,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += 16, y += (incY * 16);
+                      i += 8, x += 16, y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
                       x_1 = _mm_loadu_ps(((float*)x) + 4);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -14165,11 +14165,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_ps(((float*)x));
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -14187,7 +14187,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -14209,7 +14209,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -14231,12 +14231,12 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20), y += 20){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
+                    for(i = 0; i + 10 <= N_block; i += 10, x += ((ptrdiff_t)incX * 20), y += 20){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -14375,10 +14375,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -14488,11 +14488,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -14548,10 +14548,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -14580,7 +14580,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -14612,15 +14612,15 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20), y += 20){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
+                    for(i = 0; i + 10 <= N_block; i += 10, x += ((ptrdiff_t)incX * 20), y += 20){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -14709,10 +14709,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       y_2 = _mm_loadu_ps(((float*)y) + 8);
@@ -14782,11 +14782,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += 16;
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += 16;
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       y_1 = _mm_loadu_ps(((float*)y) + 4);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
@@ -14822,10 +14822,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
                       y_0 = _mm_loadu_ps(((float*)y));
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -14844,7 +14844,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -14866,7 +14866,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -14886,17 +14886,17 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20), y += (incY * 20)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
-                      y_4 = _mm_set_ps(((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
+                    for(i = 0; i + 10 <= N_block; i += 10, x += ((ptrdiff_t)incX * 20), y += ((ptrdiff_t)incY * 20)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
+                      y_4 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -15030,14 +15030,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -15143,13 +15143,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -15203,11 +15203,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -15235,7 +15235,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -15267,20 +15267,20 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20), y += (incY * 20)){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
-                      y_4 = _mm_set_ps(((float*)y)[((incY * 18) + 1)], ((float*)y)[(incY * 18)], ((float*)y)[((incY * 16) + 1)], ((float*)y)[(incY * 16)]);
+                    for(i = 0; i + 10 <= N_block; i += 10, x += ((ptrdiff_t)incX * 20), y += ((ptrdiff_t)incY * 20)){
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
+                      y_4 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 18) + 1)], ((float*)y)[((ptrdiff_t)incY * 18)], ((float*)y)[(((ptrdiff_t)incY * 16) + 1)], ((float*)y)[((ptrdiff_t)incY * 16)]);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_7 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -15364,14 +15364,14 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_9, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                      x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
-                      y_2 = _mm_set_ps(((float*)y)[((incY * 10) + 1)], ((float*)y)[(incY * 10)], ((float*)y)[((incY * 8) + 1)], ((float*)y)[(incY * 8)]);
-                      y_3 = _mm_set_ps(((float*)y)[((incY * 14) + 1)], ((float*)y)[(incY * 14)], ((float*)y)[((incY * 12) + 1)], ((float*)y)[(incY * 12)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 10) + 1)], ((float*)y)[((ptrdiff_t)incY * 10)], ((float*)y)[(((ptrdiff_t)incY * 8) + 1)], ((float*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 14) + 1)], ((float*)y)[((ptrdiff_t)incY * 14)], ((float*)y)[(((ptrdiff_t)incY * 12) + 1)], ((float*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_5 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_6 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_2, x_2, 0xB1), _mm_shuffle_ps(y_2, y_2, 0xF5)), nconj_mask_tmp);
@@ -15437,13 +15437,13 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_6, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
-                      i += 8, x += (incX * 16), y += (incY * 16);
+                      i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
-                      y_1 = _mm_set_ps(((float*)y)[((incY * 6) + 1)], ((float*)y)[(incY * 6)], ((float*)y)[((incY * 4) + 1)], ((float*)y)[(incY * 4)]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      y_1 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 6) + 1)], ((float*)y)[((ptrdiff_t)incY * 6)], ((float*)y)[(((ptrdiff_t)incY * 4) + 1)], ((float*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_3 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_1, x_1, 0xB1), _mm_shuffle_ps(y_1, y_1, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
@@ -15477,11 +15477,11 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                      y_0 = _mm_set_ps(((float*)y)[((incY * 2) + 1)], ((float*)y)[(incY * 2)], ((float*)y)[1], ((float*)y)[0]);
+                      x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                      y_0 = _mm_set_ps(((float*)y)[(((ptrdiff_t)incY * 2) + 1)], ((float*)y)[((ptrdiff_t)incY * 2)], ((float*)y)[1], ((float*)y)[0]);
                       x_1 = _mm_xor_ps(_mm_mul_ps(_mm_shuffle_ps(x_0, x_0, 0xB1), _mm_shuffle_ps(y_0, y_0, 0xF5)), nconj_mask_tmp);
                       x_0 = _mm_mul_ps(x_0, _mm_shuffle_ps(y_0, y_0, 0xA0));
 
@@ -15499,7 +15499,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -15521,19 +15521,19 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm_sub_ps(s_buffer[(j * 2)], _mm_set_ps(((float*)priZ)[((incpriZ * j * 2) + 1)], ((float*)priZ)[(incpriZ * j * 2)], 0, 0));
-                cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + (incpriZ * j * 2)));
+                s_buffer[(j * 2)] = _mm_sub_ps(s_buffer[(j * 2)], _mm_set_ps(((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)], ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)], 0, 0));
+                cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priZ)) + ((ptrdiff_t)incpriZ * j * 2)));
                 s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_sub_ps(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm_store_ps(cons_buffer_tmp, s_buffer[(j * 2)]);
-                ((float*)priZ)[(incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-                ((float*)priZ)[((incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+                ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+                ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -15564,10 +15564,10 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
 
               s_0_0 = s_0_2 = ((float*)priZ)[0];
               s_0_1 = s_0_3 = ((float*)priZ)[1];
-              s_1_0 = s_1_2 = ((float*)priZ)[(incpriZ * 2)];
-              s_1_1 = s_1_3 = ((float*)priZ)[((incpriZ * 2) + 1)];
-              s_2_0 = s_2_2 = ((float*)priZ)[(incpriZ * 4)];
-              s_2_1 = s_2_3 = ((float*)priZ)[((incpriZ * 4) + 1)];
+              s_1_0 = s_1_2 = ((float*)priZ)[((ptrdiff_t)incpriZ * 2)];
+              s_1_1 = s_1_3 = ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)];
+              s_2_0 = s_2_2 = ((float*)priZ)[((ptrdiff_t)incpriZ * 4)];
+              s_2_1 = s_2_3 = ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)];
 
               if(incX == 1){
                 if(incY == 1){
@@ -15766,7 +15766,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -15838,7 +15838,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -15938,7 +15938,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16010,7 +16010,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16108,7 +16108,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16180,7 +16180,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16261,18 +16261,18 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               s_0_1 = s_0_1 + (s_0_3 - cons_tmp);
               ((float*)priZ)[0] = s_0_0;
               ((float*)priZ)[1] = s_0_1;
-              cons_tmp = ((float*)priZ)[(incpriZ * 2)];
+              cons_tmp = ((float*)priZ)[((ptrdiff_t)incpriZ * 2)];
               s_1_0 = s_1_0 + (s_1_2 - cons_tmp);
-              cons_tmp = ((float*)priZ)[((incpriZ * 2) + 1)];
+              cons_tmp = ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)];
               s_1_1 = s_1_1 + (s_1_3 - cons_tmp);
-              ((float*)priZ)[(incpriZ * 2)] = s_1_0;
-              ((float*)priZ)[((incpriZ * 2) + 1)] = s_1_1;
-              cons_tmp = ((float*)priZ)[(incpriZ * 4)];
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 2)] = s_1_0;
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = s_1_1;
+              cons_tmp = ((float*)priZ)[((ptrdiff_t)incpriZ * 4)];
               s_2_0 = s_2_0 + (s_2_2 - cons_tmp);
-              cons_tmp = ((float*)priZ)[((incpriZ * 4) + 1)];
+              cons_tmp = ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)];
               s_2_1 = s_2_1 + (s_2_3 - cons_tmp);
-              ((float*)priZ)[(incpriZ * 4)] = s_2_0;
-              ((float*)priZ)[((incpriZ * 4) + 1)] = s_2_1;
+              ((float*)priZ)[((ptrdiff_t)incpriZ * 4)] = s_2_0;
+              ((float*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = s_2_1;
 
             }
             break;
@@ -16289,8 +16289,8 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               float s_buffer[(binned_SBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 2)] = ((float*)priZ)[(incpriZ * j * 2)];
-                s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 3)] = ((float*)priZ)[((incpriZ * j * 2) + 1)];
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 2)] = ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)];
+                s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 3)] = ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)];
               }
 
               if(incX == 1){
@@ -16482,7 +16482,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16564,7 +16564,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16646,7 +16646,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16728,7 +16728,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16808,7 +16808,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_SMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16890,7 +16890,7 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((float*)x)[0];
                       x_1 = ((float*)x)[1];
                       y_0 = ((float*)y)[0];
@@ -16948,12 +16948,12 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
               }
 
               for(j = 0; j < fold; j += 1){
-                cons_tmp = ((float*)priZ)[(incpriZ * j * 2)];
+                cons_tmp = ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)];
                 s_buffer[(j * 4)] = s_buffer[(j * 4)] + (s_buffer[((j * 4) + 2)] - cons_tmp);
-                cons_tmp = ((float*)priZ)[((incpriZ * j * 2) + 1)];
+                cons_tmp = ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)];
                 s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 1)] + (s_buffer[((j * 4) + 3)] - cons_tmp);
-                ((float*)priZ)[(incpriZ * j * 2)] = s_buffer[(j * 4)];
-                ((float*)priZ)[((incpriZ * j * 2) + 1)] = s_buffer[((j * 4) + 1)];
+                ((float*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = s_buffer[(j * 4)];
+                ((float*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = s_buffer[((j * 4) + 1)];
               }
 
             }
diff --git a/src/binnedBLAS/cmcsum.ccog b/src/binnedBLAS/cmcsum.ccog
index 98b7cf7..62930c8 100644
--- a/src/binnedBLAS/cmcsum.ccog
+++ b/src/binnedBLAS/cmcsum.ccog
@@ -134,7 +134,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               __m256 s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY)));
-              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + (incpriY * 2)));
+              s_1_0 = s_1_1 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 2)));
 
               if(incX == 1){
                 if(binned_smindex0(priY) || binned_smindex0(priY + 1)){
@@ -402,15 +402,15 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                    x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                    x_6 = _mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]);
-                    x_7 = _mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]);
+                  for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64)){
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                    x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                    x_6 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]);
+                    x_7 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -454,10 +454,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -479,11 +479,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm256_add_ps(_mm256_add_ps(x_3, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -495,38 +495,38 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     x_0 = _mm256_add_ps(_mm256_add_ps(x_0, _mm256_mul_ps(q_0, expansion_0)), _mm256_mul_ps(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     x_0 = _mm256_add_ps(_mm256_add_ps(x_0, _mm256_mul_ps(q_0, expansion_0)), _mm256_mul_ps(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                    x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                    x_6 = _mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]);
-                    x_7 = _mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]);
+                  for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64)){
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                    x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                    x_6 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]);
+                    x_7 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -570,10 +570,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -595,11 +595,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm256_add_ps(x_3, q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -611,27 +611,27 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm256_add_ps(x_1, q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -642,12 +642,12 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priY)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
               ((float*)priY)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], ((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], ((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], 0, 0));
-              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priY)) + (incpriY * 2)));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], 0, 0));
+              cons_tmp = (__m256)_mm256_broadcast_sd((double *)(((float*)((float*)priY)) + ((ptrdiff_t)incpriY * 2)));
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priY)[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              ((float*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -667,8 +667,8 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               __m256 s_2_0;
 
               s_0_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY)));
-              s_1_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + (incpriY * 2)));
-              s_2_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + (incpriY * 4)));
+              s_1_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 2)));
+              s_2_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 4)));
 
               if(incX == 1){
                 if(binned_smindex0(priY) || binned_smindex0(priY + 1)){
@@ -1044,14 +1044,14 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                    x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                    x_6 = _mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]);
+                  for(i = 0; i + 28 <= N_block; i += 28, x += ((ptrdiff_t)incX * 56)){
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                    x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                    x_6 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -1118,10 +1118,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -1159,11 +1159,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_3 = _mm256_add_ps(x_3, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -1183,10 +1183,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_1 = _mm256_add_ps(x_1, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -1197,10 +1197,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -1211,17 +1211,17 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                    x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                    x_6 = _mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]);
+                  for(i = 0; i + 28 <= N_block; i += 28, x += ((ptrdiff_t)incX * 56)){
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                    x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                    x_6 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -1288,10 +1288,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_6, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -1329,11 +1329,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_3 = _mm256_add_ps(x_3, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -1353,10 +1353,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_1 = _mm256_add_ps(x_1, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -1367,10 +1367,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -1381,7 +1381,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -1390,14 +1390,14 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priY)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
               ((float*)priY)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], ((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], ((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], 0, 0));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], 0, 0));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priY)[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priY)[((incpriY * 4) + 1)], ((float*)priY)[(incpriY * 4)], ((float*)priY)[((incpriY * 4) + 1)], ((float*)priY)[(incpriY * 4)], ((float*)priY)[((incpriY * 4) + 1)], ((float*)priY)[(incpriY * 4)], 0, 0));
+              ((float*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 4)], ((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 4)], ((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 4)], 0, 0));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priY)[(incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priY)[((incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              ((float*)priY)[((ptrdiff_t)incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1418,9 +1418,9 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               __m256 s_3_0;
 
               s_0_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY)));
-              s_1_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + (incpriY * 2)));
-              s_2_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + (incpriY * 4)));
-              s_3_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + (incpriY * 6)));
+              s_1_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 2)));
+              s_2_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 4)));
+              s_3_0 = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 6)));
 
               if(incX == 1){
                 if(binned_smindex0(priY) || binned_smindex0(priY + 1)){
@@ -1944,15 +1944,15 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                    x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                    x_6 = _mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]);
-                    x_7 = _mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]);
+                  for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64)){
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                    x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                    x_6 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]);
+                    x_7 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2060,10 +2060,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2117,11 +2117,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_3 = _mm256_add_ps(x_3, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2149,10 +2149,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_1 = _mm256_add_ps(x_1, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2167,10 +2167,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2185,18 +2185,18 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                    x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
-                    x_6 = _mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]);
-                    x_7 = _mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]);
+                  for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64)){
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                    x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
+                    x_6 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]);
+                    x_7 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -2304,10 +2304,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -2361,11 +2361,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_3 = _mm256_add_ps(x_3, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -2393,10 +2393,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_1 = _mm256_add_ps(x_1, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -2411,10 +2411,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -2429,7 +2429,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -2438,18 +2438,18 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priY)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
               ((float*)priY)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], ((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], ((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], 0, 0));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], 0, 0));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priY)[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priY)[((incpriY * 4) + 1)], ((float*)priY)[(incpriY * 4)], ((float*)priY)[((incpriY * 4) + 1)], ((float*)priY)[(incpriY * 4)], ((float*)priY)[((incpriY * 4) + 1)], ((float*)priY)[(incpriY * 4)], 0, 0));
+              ((float*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 4)], ((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 4)], ((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 4)], 0, 0));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priY)[(incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priY)[((incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
-              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(((float*)priY)[((incpriY * 6) + 1)], ((float*)priY)[(incpriY * 6)], ((float*)priY)[((incpriY * 6) + 1)], ((float*)priY)[(incpriY * 6)], ((float*)priY)[((incpriY * 6) + 1)], ((float*)priY)[(incpriY * 6)], 0, 0));
+              ((float*)priY)[((ptrdiff_t)incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 6) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 6)], ((float*)priY)[(((ptrdiff_t)incpriY * 6) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 6)], ((float*)priY)[(((ptrdiff_t)incpriY * 6) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 6)], 0, 0));
               _mm256_store_ps(cons_buffer_tmp, s_3_0);
-              ((float*)priY)[(incpriY * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-              ((float*)priY)[((incpriY * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+              ((float*)priY)[((ptrdiff_t)incpriY * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2468,7 +2468,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               __m256 s_buffer[binned_SBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + (incpriY * j * 2)));
+                s_buffer[j] = (__m256)_mm256_broadcast_sd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * j * 2)));
               }
 
               if(incX == 1){
@@ -2867,13 +2867,13 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                    x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                    x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2955,10 +2955,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_5, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -3012,11 +3012,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_3 = _mm256_add_ps(x_3, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -3044,10 +3044,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_1 = _mm256_add_ps(x_1, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -3062,10 +3062,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -3080,16 +3080,16 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_4 = _mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]);
-                    x_5 = _mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_4 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]);
+                    x_5 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -3141,10 +3141,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_5, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_2 = _mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_3 = _mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_2 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_3 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -3178,11 +3178,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_3 = _mm256_add_ps(x_3, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -3200,10 +3200,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_1 = _mm256_add_ps(x_1, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -3213,10 +3213,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]);
+                    x_0 = (__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -3226,16 +3226,16 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_sub_ps(s_buffer[j], _mm256_set_ps(((float*)priY)[((incpriY * j * 2) + 1)], ((float*)priY)[(incpriY * j * 2)], ((float*)priY)[((incpriY * j * 2) + 1)], ((float*)priY)[(incpriY * j * 2)], ((float*)priY)[((incpriY * j * 2) + 1)], ((float*)priY)[(incpriY * j * 2)], 0, 0));
+                s_buffer[j] = _mm256_sub_ps(s_buffer[j], _mm256_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * j * 2)], ((float*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * j * 2)], ((float*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * j * 2)], 0, 0));
                 _mm256_store_ps(cons_buffer_tmp, s_buffer[j]);
-                ((float*)priY)[(incpriY * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
-                ((float*)priY)[((incpriY * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
+                ((float*)priY)[((ptrdiff_t)incpriY * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2] + cons_buffer_tmp[4] + cons_buffer_tmp[6];
+                ((float*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3] + cons_buffer_tmp[5] + cons_buffer_tmp[7];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -3272,7 +3272,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               __m128 s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = (__m128)_mm_load1_pd((double *)(((float*)priY)));
-              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + (incpriY * 2)));
+              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 2)));
 
               if(incX == 1){
                 if(binned_smindex0(priY) || binned_smindex0(priY + 1)){
@@ -3540,15 +3540,15 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                    x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_5 = _mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]);
-                    x_6 = _mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_7 = _mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3592,10 +3592,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3617,11 +3617,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm_add_ps(_mm_add_ps(x_3, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3633,17 +3633,17 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(x_0, compression_0), blp_mask_tmp));
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(_mm_add_ps(x_0, _mm_mul_ps(q_0, expansion_0)), _mm_mul_ps(q_0, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -3653,18 +3653,18 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(_mm_add_ps(x_0, _mm_mul_ps(q_0, expansion_0)), _mm_mul_ps(q_0, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                    x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_5 = _mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]);
-                    x_6 = _mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_7 = _mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3708,10 +3708,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3733,11 +3733,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm_add_ps(x_3, q_1);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3749,17 +3749,17 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(x_0, blp_mask_tmp));
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -3769,7 +3769,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -3780,12 +3780,12 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priY)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((float*)priY)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + (incpriY * 2)));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + ((ptrdiff_t)incpriY * 2)));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priY)[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((float*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3805,8 +3805,8 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               __m128 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = (__m128)_mm_load1_pd((double *)(((float*)priY)));
-              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + (incpriY * 2)));
-              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + (incpriY * 4)));
+              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 2)));
+              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 4)));
 
               if(incX == 1){
                 if(binned_smindex0(priY) || binned_smindex0(priY + 1)){
@@ -4202,15 +4202,15 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                    x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_5 = _mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]);
-                    x_6 = _mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_7 = _mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4286,10 +4286,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4327,11 +4327,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm_add_ps(x_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4351,10 +4351,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -4365,7 +4365,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -4379,18 +4379,18 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                    x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_5 = _mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]);
-                    x_6 = _mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_7 = _mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4466,10 +4466,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4507,11 +4507,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm_add_ps(x_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4531,10 +4531,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(x_0, blp_mask_tmp));
@@ -4545,7 +4545,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -4559,7 +4559,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -4570,18 +4570,18 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priY)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((float*)priY)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + (incpriY * 2)));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + ((ptrdiff_t)incpriY * 2)));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priY)[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priY)[((incpriY * 4) + 1)], ((float*)priY)[(incpriY * 4)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + (incpriY * 4)));
+              ((float*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 4)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + ((ptrdiff_t)incpriY * 4)));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priY)[(incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priY)[((incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((float*)priY)[((ptrdiff_t)incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -4602,9 +4602,9 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               __m128 s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = (__m128)_mm_load1_pd((double *)(((float*)priY)));
-              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + (incpriY * 2)));
-              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + (incpriY * 4)));
-              s_3_0 = s_3_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + (incpriY * 6)));
+              s_1_0 = s_1_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 2)));
+              s_2_0 = s_2_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 4)));
+              s_3_0 = s_3_1 = (__m128)_mm_load1_pd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * 6)));
 
               if(incX == 1){
                 if(binned_smindex0(priY) || binned_smindex0(priY + 1)){
@@ -5128,15 +5128,15 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                    x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_5 = _mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]);
-                    x_6 = _mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_7 = _mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5244,10 +5244,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5301,11 +5301,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm_add_ps(x_3, q_1);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5333,10 +5333,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -5351,7 +5351,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -5369,18 +5369,18 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
-                    x_4 = _mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]);
-                    x_5 = _mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]);
-                    x_6 = _mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]);
-                    x_7 = _mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5488,10 +5488,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
-                    x_2 = _mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]);
-                    x_3 = _mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5545,11 +5545,11 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm_add_ps(x_3, q_1);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5577,10 +5577,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(x_0, blp_mask_tmp));
@@ -5595,7 +5595,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -5613,7 +5613,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -5624,24 +5624,24 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               ((float*)priY)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((float*)priY)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priY)[((incpriY * 2) + 1)], ((float*)priY)[(incpriY * 2)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + (incpriY * 2)));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 2)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + ((ptrdiff_t)incpriY * 2)));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              ((float*)priY)[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priY)[((incpriY * 4) + 1)], ((float*)priY)[(incpriY * 4)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + (incpriY * 4)));
+              ((float*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 4)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + ((ptrdiff_t)incpriY * 4)));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              ((float*)priY)[(incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priY)[((incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(((float*)priY)[((incpriY * 6) + 1)], ((float*)priY)[(incpriY * 6)], 0, 0));
-              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + (incpriY * 6)));
+              ((float*)priY)[((ptrdiff_t)incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * 6) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * 6)], 0, 0));
+              cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + ((ptrdiff_t)incpriY * 6)));
               s_3_0 = _mm_add_ps(s_3_0, _mm_sub_ps(s_3_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_3_0);
-              ((float*)priY)[(incpriY * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((float*)priY)[((incpriY * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((float*)priY)[((ptrdiff_t)incpriY * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((float*)priY)[(((ptrdiff_t)incpriY * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -5660,7 +5660,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               __m128 s_buffer[(binned_SBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = (__m128)_mm_load1_pd((double *)(((float*)priY) + (incpriY * j * 2)));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = (__m128)_mm_load1_pd((double *)(((float*)priY) + ((ptrdiff_t)incpriY * j * 2)));
               }
 
               if(incX == 1){
@@ -5811,9 +5811,9 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                  for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8)){
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -5841,7 +5841,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm_add_ps(s_0, _mm_or_ps(_mm_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -5857,7 +5857,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -5876,12 +5876,12 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
-                    x_1 = _mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]);
+                  for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8)){
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_1 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -5899,7 +5899,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]);
+                    x_0 = _mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -5909,7 +5909,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]);
@@ -5922,18 +5922,18 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm_sub_ps(s_buffer[(j * 2)], _mm_set_ps(((float*)priY)[((incpriY * j * 2) + 1)], ((float*)priY)[(incpriY * j * 2)], 0, 0));
-                cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + (incpriY * j * 2)));
+                s_buffer[(j * 2)] = _mm_sub_ps(s_buffer[(j * 2)], _mm_set_ps(((float*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)], ((float*)priY)[((ptrdiff_t)incpriY * j * 2)], 0, 0));
+                cons_tmp = (__m128)_mm_load1_pd((double *)(((float*)((float*)priY)) + ((ptrdiff_t)incpriY * j * 2)));
                 s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_sub_ps(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm_store_ps(cons_buffer_tmp, s_buffer[(j * 2)]);
-                ((float*)priY)[(incpriY * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-                ((float*)priY)[((incpriY * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+                ((float*)priY)[((ptrdiff_t)incpriY * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+                ((float*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -5963,10 +5963,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
 
               s_0_0 = ((float*)priY)[0];
               s_0_1 = ((float*)priY)[1];
-              s_1_0 = ((float*)priY)[(incpriY * 2)];
-              s_1_1 = ((float*)priY)[((incpriY * 2) + 1)];
-              s_2_0 = ((float*)priY)[(incpriY * 4)];
-              s_2_1 = ((float*)priY)[((incpriY * 4) + 1)];
+              s_1_0 = ((float*)priY)[((ptrdiff_t)incpriY * 2)];
+              s_1_1 = ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)];
+              s_2_0 = ((float*)priY)[((ptrdiff_t)incpriY * 4)];
+              s_2_1 = ((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)];
 
               if(incX == 1){
                 if(binned_smindex0(priY) || binned_smindex0(priY + 1)){
@@ -6092,7 +6092,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6128,7 +6128,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = s_2_1 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6168,10 +6168,10 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
 
               ((float*)priY)[0] = s_0_0;
               ((float*)priY)[1] = s_0_1;
-              ((float*)priY)[(incpriY * 2)] = s_1_0;
-              ((float*)priY)[((incpriY * 2) + 1)] = s_1_1;
-              ((float*)priY)[(incpriY * 4)] = s_2_0;
-              ((float*)priY)[((incpriY * 4) + 1)] = s_2_1;
+              ((float*)priY)[((ptrdiff_t)incpriY * 2)] = s_1_0;
+              ((float*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = s_1_1;
+              ((float*)priY)[((ptrdiff_t)incpriY * 4)] = s_2_0;
+              ((float*)priY)[(((ptrdiff_t)incpriY * 4) + 1)] = s_2_1;
 
             }
             break;
@@ -6187,8 +6187,8 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               float s_buffer[(binned_SBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = ((float*)priY)[(incpriY * j * 2)];
-                s_buffer[((j * 2) + 1)] = ((float*)priY)[((incpriY * j * 2) + 1)];
+                s_buffer[(j * 2)] = ((float*)priY)[((ptrdiff_t)incpriY * j * 2)];
+                s_buffer[((j * 2) + 1)] = ((float*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)];
               }
 
               if(incX == 1){
@@ -6313,7 +6313,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6355,7 +6355,7 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = ((float*)x)[0];
                     x_1 = ((float*)x)[1];
 
@@ -6386,8 +6386,8 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
               }
 
               for(j = 0; j < fold; j += 1){
-                ((float*)priY)[(incpriY * j * 2)] = s_buffer[(j * 2)];
-                ((float*)priY)[((incpriY * j * 2) + 1)] = s_buffer[((j * 2) + 1)];
+                ((float*)priY)[((ptrdiff_t)incpriY * j * 2)] = s_buffer[(j * 2)];
+                ((float*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)] = s_buffer[((j * 2) + 1)];
               }
 
             }
diff --git a/src/binnedBLAS/damax.ccog b/src/binnedBLAS/damax.ccog
index 45449cf..fd5b8ef 100644
--- a/src/binnedBLAS/damax.ccog
+++ b/src/binnedBLAS/damax.ccog
@@ -60,7 +60,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX){
     }
     double max_buffer_tmp[4] __attribute__((aligned(32))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m256d X_0, X_1, X_2, X_3, X_4, X_5, X_6, X_7;
     __m256d m_0;
@@ -116,15 +116,15 @@ double binnedBLAS_damax(const int N, const double *X, const int incX){
       }
     }else{
 
-      for(i = 0; i + 32 <= N; i += 32, X += (incX * 32)){
-        X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-        X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-        X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-        X_4 = _mm256_and_pd(_mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-        X_5 = _mm256_and_pd(_mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-        X_6 = _mm256_and_pd(_mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-        X_7 = _mm256_and_pd(_mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
+      for(i = 0; i + 32 <= N; i += 32, X += ((ptrdiff_t)incX * 32)){
+        X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+        X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+        X_4 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+        X_5 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+        X_6 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+        X_7 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
         m_0 = _mm256_max_pd(m_0, X_1);
         m_0 = _mm256_max_pd(m_0, X_2);
@@ -135,32 +135,32 @@ double binnedBLAS_damax(const int N, const double *X, const int incX){
         m_0 = _mm256_max_pd(m_0, X_7);
       }
       if(i + 16 <= N){
-        X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-        X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-        X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+        X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+        X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
         m_0 = _mm256_max_pd(m_0, X_1);
         m_0 = _mm256_max_pd(m_0, X_2);
         m_0 = _mm256_max_pd(m_0, X_3);
-        i += 16, X += (incX * 16);
+        i += 16, X += ((ptrdiff_t)incX * 16);
       }
       if(i + 8 <= N){
-        X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+        X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
         m_0 = _mm256_max_pd(m_0, X_1);
-        i += 8, X += (incX * 8);
+        i += 8, X += ((ptrdiff_t)incX * 8);
       }
       if(i + 4 <= N){
-        X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+        X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
-        i += 4, X += (incX * 4);
+        i += 4, X += ((ptrdiff_t)incX * 4);
       }
       if(i < N){
-        X_0 = _mm256_and_pd(_mm256_set_pd(0, (N - i)>2?X[(incX * 2)]:0, (N - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+        X_0 = _mm256_and_pd(_mm256_set_pd(0, (N - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
-        X += (incX * (N - i));
+        X += ((ptrdiff_t)incX * (N - i));
       }
     }
     _mm256_store_pd(max_buffer_tmp, m_0);
@@ -181,7 +181,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX){
     }
     double max_buffer_tmp[2] __attribute__((aligned(16))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m128d X_0, X_1, X_2, X_3, X_4, X_5;
     __m128d m_0;
@@ -233,13 +233,13 @@ double binnedBLAS_damax(const int N, const double *X, const int incX){
       }
     }else{
 
-      for(i = 0; i + 12 <= N; i += 12, X += (incX * 12)){
-        X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-        X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-        X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
-        X_4 = _mm_and_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-        X_5 = _mm_and_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), abs_mask_tmp);
+      for(i = 0; i + 12 <= N; i += 12, X += ((ptrdiff_t)incX * 12)){
+        X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+        X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+        X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
+        X_4 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        X_5 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
         m_0 = _mm_max_pd(m_0, X_1);
         m_0 = _mm_max_pd(m_0, X_2);
@@ -248,32 +248,32 @@ double binnedBLAS_damax(const int N, const double *X, const int incX){
         m_0 = _mm_max_pd(m_0, X_5);
       }
       if(i + 8 <= N){
-        X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-        X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-        X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
+        X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+        X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+        X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
         m_0 = _mm_max_pd(m_0, X_1);
         m_0 = _mm_max_pd(m_0, X_2);
         m_0 = _mm_max_pd(m_0, X_3);
-        i += 8, X += (incX * 8);
+        i += 8, X += ((ptrdiff_t)incX * 8);
       }
       if(i + 4 <= N){
-        X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
+        X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
         m_0 = _mm_max_pd(m_0, X_1);
-        i += 4, X += (incX * 4);
+        i += 4, X += ((ptrdiff_t)incX * 4);
       }
       if(i + 2 <= N){
-        X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
+        X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
-        i += 2, X += (incX * 2);
+        i += 2, X += ((ptrdiff_t)incX * 2);
       }
       if(i < N){
         X_0 = _mm_and_pd(_mm_set_pd(0, X[0]), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
-        X += (incX * (N - i));
+        X += ((ptrdiff_t)incX * (N - i));
       }
     }
     _mm_store_pd(max_buffer_tmp, m_0);
@@ -281,7 +281,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX){
     (&amax)[0] = max_buffer_tmp[0];
 
   #else
-    int i;
+    ptrdiff_t i;
 
     double X_0;
     double m_0;
@@ -295,7 +295,7 @@ double binnedBLAS_damax(const int N, const double *X, const int incX){
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, X += incX){
+      for(i = 0; i + 1 <= N; i += 1, X += (ptrdiff_t)incX){
         X_0 = fabs(X[0]);
         m_0 = (m_0 > X_0? m_0: X_0);
       }
diff --git a/src/binnedBLAS/damaxm.ccog b/src/binnedBLAS/damaxm.ccog
index dff0fec..942a827 100644
--- a/src/binnedBLAS/damaxm.ccog
+++ b/src/binnedBLAS/damaxm.ccog
@@ -62,7 +62,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX, const dou
     }
     double max_buffer_tmp[4] __attribute__((aligned(32))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m256d X_0, X_1, X_2, X_3, X_4, X_5, X_6;
     __m256d Y_0, Y_1, Y_2, Y_3, Y_4, Y_5, Y_6;
@@ -147,21 +147,21 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX, const dou
       }
     }else{
 
-      for(i = 0; i + 28 <= N; i += 28, X += (incX * 28), Y += (incY * 28)){
-        X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-        X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-        X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-        X_4 = _mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-        X_5 = _mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-        X_6 = _mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-        Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-        Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-        Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-        Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
-        Y_4 = _mm256_set_pd(Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-        Y_5 = _mm256_set_pd(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)]);
-        Y_6 = _mm256_set_pd(Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+      for(i = 0; i + 28 <= N; i += 28, X += ((ptrdiff_t)incX * 28), Y += ((ptrdiff_t)incY * 28)){
+        X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+        X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+        X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+        X_4 = _mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+        X_5 = _mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+        X_6 = _mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+        Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+        Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+        Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+        Y_4 = _mm256_set_pd(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+        Y_5 = _mm256_set_pd(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+        Y_6 = _mm256_set_pd(Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
         X_0 = _mm256_and_pd(_mm256_mul_pd(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm256_and_pd(_mm256_mul_pd(X_1, Y_1), abs_mask_tmp);
         X_2 = _mm256_and_pd(_mm256_mul_pd(X_2, Y_2), abs_mask_tmp);
@@ -178,14 +178,14 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX, const dou
         m_0 = _mm256_max_pd(m_0, X_6);
       }
       if(i + 16 <= N){
-        X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-        X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-        X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-        Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-        Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-        Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-        Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+        X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+        X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+        X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+        Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+        Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+        Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
         X_0 = _mm256_and_pd(_mm256_mul_pd(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm256_and_pd(_mm256_mul_pd(X_1, Y_1), abs_mask_tmp);
         X_2 = _mm256_and_pd(_mm256_mul_pd(X_2, Y_2), abs_mask_tmp);
@@ -194,32 +194,32 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX, const dou
         m_0 = _mm256_max_pd(m_0, X_1);
         m_0 = _mm256_max_pd(m_0, X_2);
         m_0 = _mm256_max_pd(m_0, X_3);
-        i += 16, X += (incX * 16), Y += (incY * 16);
+        i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
       }
       if(i + 8 <= N){
-        X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-        Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-        Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+        X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+        Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
         X_0 = _mm256_and_pd(_mm256_mul_pd(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm256_and_pd(_mm256_mul_pd(X_1, Y_1), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
         m_0 = _mm256_max_pd(m_0, X_1);
-        i += 8, X += (incX * 8), Y += (incY * 8);
+        i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
       }
       if(i + 4 <= N){
-        X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+        X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
         X_0 = _mm256_and_pd(_mm256_mul_pd(X_0, Y_0), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
-        i += 4, X += (incX * 4), Y += (incY * 4);
+        i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
       }
       if(i < N){
-        X_0 = _mm256_set_pd(0, (N - i)>2?X[(incX * 2)]:0, (N - i)>1?X[incX]:0, X[0]);
-        Y_0 = _mm256_set_pd(0, (N - i)>2?Y[(incY * 2)]:0, (N - i)>1?Y[incY]:0, Y[0]);
+        X_0 = _mm256_set_pd(0, (N - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+        Y_0 = _mm256_set_pd(0, (N - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
         X_0 = _mm256_and_pd(_mm256_mul_pd(X_0, Y_0), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, X_0);
-        X += (incX * (N - i)), Y += (incY * (N - i));
+        X += ((ptrdiff_t)incX * (N - i)), Y += ((ptrdiff_t)incY * (N - i));
       }
     }
     _mm256_store_pd(max_buffer_tmp, m_0);
@@ -240,7 +240,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX, const dou
     }
     double max_buffer_tmp[2] __attribute__((aligned(16))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m128d X_0, X_1, X_2, X_3;
     __m128d Y_0, Y_1, Y_2, Y_3;
@@ -294,15 +294,15 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX, const dou
       }
     }else{
 
-      for(i = 0; i + 8 <= N; i += 8, X += (incX * 8), Y += (incY * 8)){
-        X_0 = _mm_set_pd(X[incX], X[0]);
-        X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-        X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-        X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-        Y_0 = _mm_set_pd(Y[incY], Y[0]);
-        Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-        Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-        Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+      for(i = 0; i + 8 <= N; i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8)){
+        X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+        X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+        X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+        Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+        Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+        Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
         X_0 = _mm_and_pd(_mm_mul_pd(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm_and_pd(_mm_mul_pd(X_1, Y_1), abs_mask_tmp);
         X_2 = _mm_and_pd(_mm_mul_pd(X_2, Y_2), abs_mask_tmp);
@@ -313,29 +313,29 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX, const dou
         m_0 = _mm_max_pd(m_0, X_3);
       }
       if(i + 4 <= N){
-        X_0 = _mm_set_pd(X[incX], X[0]);
-        X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-        Y_0 = _mm_set_pd(Y[incY], Y[0]);
-        Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+        X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+        Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
         X_0 = _mm_and_pd(_mm_mul_pd(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm_and_pd(_mm_mul_pd(X_1, Y_1), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
         m_0 = _mm_max_pd(m_0, X_1);
-        i += 4, X += (incX * 4), Y += (incY * 4);
+        i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
       }
       if(i + 2 <= N){
-        X_0 = _mm_set_pd(X[incX], X[0]);
-        Y_0 = _mm_set_pd(Y[incY], Y[0]);
+        X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+        Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
         X_0 = _mm_and_pd(_mm_mul_pd(X_0, Y_0), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
-        i += 2, X += (incX * 2), Y += (incY * 2);
+        i += 2, X += ((ptrdiff_t)incX * 2), Y += ((ptrdiff_t)incY * 2);
       }
       if(i < N){
         X_0 = _mm_set_pd(0, X[0]);
         Y_0 = _mm_set_pd(0, Y[0]);
         X_0 = _mm_and_pd(_mm_mul_pd(X_0, Y_0), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, X_0);
-        X += (incX * (N - i)), Y += (incY * (N - i));
+        X += ((ptrdiff_t)incX * (N - i)), Y += ((ptrdiff_t)incY * (N - i));
       }
     }
     _mm_store_pd(max_buffer_tmp, m_0);
@@ -343,7 +343,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX, const dou
     (&amaxm)[0] = max_buffer_tmp[0];
 
   #else
-    int i;
+    ptrdiff_t i;
 
     double X_0;
     double Y_0;
@@ -360,7 +360,7 @@ double binnedBLAS_damaxm(const int N, const double *X, const int incX, const dou
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, X += incX, Y += incY){
+      for(i = 0; i + 1 <= N; i += 1, X += (ptrdiff_t)incX, Y += (ptrdiff_t)incY){
         X_0 = X[0];
         Y_0 = Y[0];
         X_0 = fabs((X_0 * Y_0));
diff --git a/src/binnedBLAS/dmdasum.ccog b/src/binnedBLAS/dmdasum.ccog
index ce4eaee..7648b43 100644
--- a/src/binnedBLAS/dmdasum.ccog
+++ b/src/binnedBLAS/dmdasum.ccog
@@ -124,7 +124,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               __m256d s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_sd(priY);
-              s_1_0 = s_1_1 = _mm256_broadcast_sd(priY + incpriY);
+              s_1_0 = s_1_1 = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -518,19 +518,19 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm256_and_pd(_mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm256_and_pd(_mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm256_and_pd(_mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm256_and_pd(_mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
-                    X_8 = _mm256_and_pd(_mm256_set_pd(X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_9 = _mm256_and_pd(_mm256_set_pd(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)]), abs_mask_tmp);
-                    X_10 = _mm256_and_pd(_mm256_set_pd(X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
-                    X_11 = _mm256_and_pd(_mm256_set_pd(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)]), abs_mask_tmp);
+                  for(i = 0; i + 48 <= N_block; i += 48, X += ((ptrdiff_t)incX * 48)){
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    X_8 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_9 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)]), abs_mask_tmp);
+                    X_10 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    X_11 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -594,14 +594,14 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_11, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm256_and_pd(_mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm256_and_pd(_mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm256_and_pd(_mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm256_and_pd(_mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -643,13 +643,13 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_7 = _mm256_add_pd(_mm256_add_pd(X_7, q_1), q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -671,11 +671,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_3 = _mm256_add_pd(_mm256_add_pd(X_3, q_1), q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -687,42 +687,42 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_1 = _mm256_add_pd(_mm256_add_pd(X_1, q_1), q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm256_and_pd(_mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm256_and_pd(_mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm256_and_pd(_mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm256_and_pd(_mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
-                    X_8 = _mm256_and_pd(_mm256_set_pd(X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_9 = _mm256_and_pd(_mm256_set_pd(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)]), abs_mask_tmp);
-                    X_10 = _mm256_and_pd(_mm256_set_pd(X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
-                    X_11 = _mm256_and_pd(_mm256_set_pd(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)]), abs_mask_tmp);
+                  for(i = 0; i + 48 <= N_block; i += 48, X += ((ptrdiff_t)incX * 48)){
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    X_8 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_9 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)]), abs_mask_tmp);
+                    X_10 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    X_11 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -786,14 +786,14 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_11, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm256_and_pd(_mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm256_and_pd(_mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm256_and_pd(_mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm256_and_pd(_mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -835,13 +835,13 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_7 = _mm256_add_pd(X_7, q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -863,11 +863,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_3 = _mm256_add_pd(X_3, q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -879,27 +879,27 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_1 = _mm256_add_pd(X_1, q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -909,11 +909,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               s_0_0 = _mm256_add_pd(s_0_0, _mm256_sub_pd(s_0_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + incpriY);
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -932,8 +932,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               __m256d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_sd(priY);
-              s_1_0 = s_1_1 = _mm256_broadcast_sd(priY + incpriY);
-              s_2_0 = s_2_1 = _mm256_broadcast_sd(priY + (incpriY * 2));
+              s_1_0 = s_1_1 = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -1303,15 +1303,15 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm256_and_pd(_mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm256_and_pd(_mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm256_and_pd(_mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm256_and_pd(_mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1387,10 +1387,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1428,11 +1428,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_3 = _mm256_add_pd(X_3, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1452,10 +1452,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_1 = _mm256_add_pd(X_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -1466,10 +1466,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -1480,18 +1480,18 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm256_and_pd(_mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm256_and_pd(_mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm256_and_pd(_mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm256_and_pd(_mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1567,10 +1567,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1608,11 +1608,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_3 = _mm256_add_pd(X_3, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1632,10 +1632,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_1 = _mm256_add_pd(X_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
@@ -1646,10 +1646,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
@@ -1660,7 +1660,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -1670,16 +1670,16 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               s_0_0 = _mm256_add_pd(s_0_0, _mm256_sub_pd(s_0_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + incpriY);
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1699,9 +1699,9 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               __m256d s_3_0;
 
               s_0_0 = _mm256_broadcast_sd(priY);
-              s_1_0 = _mm256_broadcast_sd(priY + incpriY);
-              s_2_0 = _mm256_broadcast_sd(priY + (incpriY * 2));
-              s_3_0 = _mm256_broadcast_sd(priY + (incpriY * 3));
+              s_1_0 = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -1967,11 +1967,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -2027,8 +2027,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -2056,10 +2056,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_1 = _mm256_add_pd(X_1, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -2074,10 +2074,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -2092,14 +2092,14 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm256_and_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm256_and_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
@@ -2155,8 +2155,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
@@ -2184,10 +2184,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_1 = _mm256_add_pd(X_1, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
@@ -2202,10 +2202,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
@@ -2220,7 +2220,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -2228,15 +2228,15 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               s_0_0 = _mm256_sub_pd(s_0_0, _mm256_set_pd(priY[0], priY[0], priY[0], 0));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], 0));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], 0));
               _mm256_store_pd(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2254,7 +2254,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               __m256d s_buffer[binned_DBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_broadcast_sd(priY + (incpriY * j));
+                s_buffer[j] = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -2327,8 +2327,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                  for(i = 0; i + 4 <= N_block; i += 4, X += ((ptrdiff_t)incX * 4)){
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_pd(s_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -2345,7 +2345,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_pd(s_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -2360,11 +2360,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                       X_0 = _mm256_add_pd(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                  for(i = 0; i + 4 <= N_block; i += 4, X += ((ptrdiff_t)incX * 4)){
+                    X_0 = _mm256_and_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -2376,7 +2376,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -2386,15 +2386,15 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                       X_0 = _mm256_add_pd(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_sub_pd(s_buffer[j], _mm256_set_pd(priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], 0));
+                s_buffer[j] = _mm256_sub_pd(s_buffer[j], _mm256_set_pd(priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], 0));
                 _mm256_store_pd(cons_buffer_tmp, s_buffer[j]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -2439,7 +2439,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               __m128d s_1_0, s_1_1, s_1_2, s_1_3;
 
               s_0_0 = s_0_1 = s_0_2 = s_0_3 = _mm_load1_pd(priY);
-              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm_load1_pd(priY + incpriY);
+              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -2681,15 +2681,15 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
-                    X_4 = _mm_and_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_5 = _mm_and_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), abs_mask_tmp);
-                    X_6 = _mm_and_pd(_mm_set_pd(X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_7 = _mm_and_pd(_mm_set_pd(X[(incX * 15)], X[(incX * 14)]), abs_mask_tmp);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
+                    X_4 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_5 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), abs_mask_tmp);
+                    X_6 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_7 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2733,10 +2733,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2758,11 +2758,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_2, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2774,17 +2774,17 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_1 = _mm_add_pd(_mm_add_pd(X_1, q_1), q_1);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(_mm_mul_pd(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_and_pd(_mm_set_pd(0, X[0]), abs_mask_tmp);
@@ -2794,18 +2794,18 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
-                    X_4 = _mm_and_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_5 = _mm_and_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), abs_mask_tmp);
-                    X_6 = _mm_and_pd(_mm_set_pd(X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_7 = _mm_and_pd(_mm_set_pd(X[(incX * 15)], X[(incX * 14)]), abs_mask_tmp);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
+                    X_4 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_5 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), abs_mask_tmp);
+                    X_6 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_7 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2849,10 +2849,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2874,11 +2874,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_2, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2890,17 +2890,17 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_1 = _mm_add_pd(X_1, q_1);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(X_0, blp_mask_tmp));
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_and_pd(_mm_set_pd(0, X[0]), abs_mask_tmp);
@@ -2910,7 +2910,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -2922,13 +2922,13 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               s_0_0 = _mm_add_pd(s_0_0, _mm_sub_pd(s_0_3, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[incpriY], 0));
-              cons_tmp = _mm_load1_pd(priY + incpriY);
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_2, cons_tmp));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_3, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2947,8 +2947,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               __m128d s_2_0;
 
               s_0_0 = _mm_load1_pd(priY);
-              s_1_0 = _mm_load1_pd(priY + incpriY);
-              s_2_0 = _mm_load1_pd(priY + (incpriY * 2));
+              s_1_0 = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -3130,10 +3130,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 6 <= N_block; i += 6, X += (incX * 6)){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                  for(i = 0; i + 6 <= N_block; i += 6, X += ((ptrdiff_t)incX * 6)){
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(_mm_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -3164,8 +3164,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(_mm_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -3185,10 +3185,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_1 = _mm_add_pd(X_1, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(_mm_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -3199,7 +3199,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_and_pd(_mm_set_pd(0, X[0]), abs_mask_tmp);
@@ -3213,13 +3213,13 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, X += (incX * 6)){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                  for(i = 0; i + 6 <= N_block; i += 6, X += ((ptrdiff_t)incX * 6)){
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(X_0, blp_mask_tmp));
@@ -3250,8 +3250,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(X_0, blp_mask_tmp));
@@ -3271,10 +3271,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_1 = _mm_add_pd(X_1, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(X_0, blp_mask_tmp));
@@ -3285,7 +3285,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_and_pd(_mm_set_pd(0, X[0]), abs_mask_tmp);
@@ -3299,7 +3299,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -3307,12 +3307,12 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               s_0_0 = _mm_sub_pd(s_0_0, _mm_set_pd(priY[0], 0));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[incpriY], 0));
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[(ptrdiff_t)incpriY], 0));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3332,9 +3332,9 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               __m128d s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = _mm_load1_pd(priY);
-              s_1_0 = s_1_1 = _mm_load1_pd(priY + incpriY);
-              s_2_0 = s_2_1 = _mm_load1_pd(priY + (incpriY * 2));
-              s_3_0 = s_3_1 = _mm_load1_pd(priY + (incpriY * 3));
+              s_1_0 = s_1_1 = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = s_3_1 = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -4288,23 +4288,23 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
-                    X_4 = _mm_and_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_5 = _mm_and_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), abs_mask_tmp);
-                    X_6 = _mm_and_pd(_mm_set_pd(X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_7 = _mm_and_pd(_mm_set_pd(X[(incX * 15)], X[(incX * 14)]), abs_mask_tmp);
-                    X_8 = _mm_and_pd(_mm_set_pd(X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_9 = _mm_and_pd(_mm_set_pd(X[(incX * 19)], X[(incX * 18)]), abs_mask_tmp);
-                    X_10 = _mm_and_pd(_mm_set_pd(X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_11 = _mm_and_pd(_mm_set_pd(X[(incX * 23)], X[(incX * 22)]), abs_mask_tmp);
-                    X_12 = _mm_and_pd(_mm_set_pd(X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_13 = _mm_and_pd(_mm_set_pd(X[(incX * 27)], X[(incX * 26)]), abs_mask_tmp);
-                    X_14 = _mm_and_pd(_mm_set_pd(X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
-                    X_15 = _mm_and_pd(_mm_set_pd(X[(incX * 31)], X[(incX * 30)]), abs_mask_tmp);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
+                    X_4 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_5 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), abs_mask_tmp);
+                    X_6 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_7 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]), abs_mask_tmp);
+                    X_8 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_9 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]), abs_mask_tmp);
+                    X_10 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_11 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]), abs_mask_tmp);
+                    X_12 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_13 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)]), abs_mask_tmp);
+                    X_14 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    X_15 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4516,14 +4516,14 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
-                    X_4 = _mm_and_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_5 = _mm_and_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), abs_mask_tmp);
-                    X_6 = _mm_and_pd(_mm_set_pd(X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_7 = _mm_and_pd(_mm_set_pd(X[(incX * 15)], X[(incX * 14)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
+                    X_4 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_5 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), abs_mask_tmp);
+                    X_6 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_7 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4629,13 +4629,13 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_7 = _mm_add_pd(X_7, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_6, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4689,11 +4689,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_3 = _mm_add_pd(X_3, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_2, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4721,10 +4721,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_1 = _mm_add_pd(X_1, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(_mm_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -4739,7 +4739,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_and_pd(_mm_set_pd(0, X[0]), abs_mask_tmp);
@@ -4757,26 +4757,26 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
-                    X_4 = _mm_and_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_5 = _mm_and_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), abs_mask_tmp);
-                    X_6 = _mm_and_pd(_mm_set_pd(X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_7 = _mm_and_pd(_mm_set_pd(X[(incX * 15)], X[(incX * 14)]), abs_mask_tmp);
-                    X_8 = _mm_and_pd(_mm_set_pd(X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_9 = _mm_and_pd(_mm_set_pd(X[(incX * 19)], X[(incX * 18)]), abs_mask_tmp);
-                    X_10 = _mm_and_pd(_mm_set_pd(X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_11 = _mm_and_pd(_mm_set_pd(X[(incX * 23)], X[(incX * 22)]), abs_mask_tmp);
-                    X_12 = _mm_and_pd(_mm_set_pd(X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_13 = _mm_and_pd(_mm_set_pd(X[(incX * 27)], X[(incX * 26)]), abs_mask_tmp);
-                    X_14 = _mm_and_pd(_mm_set_pd(X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
-                    X_15 = _mm_and_pd(_mm_set_pd(X[(incX * 31)], X[(incX * 30)]), abs_mask_tmp);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
+                    X_4 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_5 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), abs_mask_tmp);
+                    X_6 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_7 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]), abs_mask_tmp);
+                    X_8 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_9 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]), abs_mask_tmp);
+                    X_10 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_11 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]), abs_mask_tmp);
+                    X_12 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_13 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)]), abs_mask_tmp);
+                    X_14 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    X_15 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4988,14 +4988,14 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
-                    X_4 = _mm_and_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_5 = _mm_and_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), abs_mask_tmp);
-                    X_6 = _mm_and_pd(_mm_set_pd(X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_7 = _mm_and_pd(_mm_set_pd(X[(incX * 15)], X[(incX * 14)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
+                    X_4 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_5 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), abs_mask_tmp);
+                    X_6 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_7 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5101,13 +5101,13 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_7 = _mm_add_pd(X_7, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_6, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5161,11 +5161,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_3 = _mm_add_pd(X_3, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_2, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5193,10 +5193,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     X_1 = _mm_add_pd(X_1, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(X_0, blp_mask_tmp));
@@ -5211,7 +5211,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_and_pd(_mm_set_pd(0, X[0]), abs_mask_tmp);
@@ -5229,7 +5229,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -5239,21 +5239,21 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               s_0_0 = _mm_add_pd(s_0_0, _mm_sub_pd(s_0_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[incpriY], 0));
-              cons_tmp = _mm_load1_pd(priY + incpriY);
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[(incpriY * 2)], 0));
-              cons_tmp = _mm_load1_pd(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_3_0 = _mm_sub_pd(s_3_0, _mm_set_pd(priY[(incpriY * 3)], 0));
-              cons_tmp = _mm_load1_pd(priY + (incpriY * 3));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_3_0 = _mm_sub_pd(s_3_0, _mm_set_pd(priY[((ptrdiff_t)incpriY * 3)], 0));
+              cons_tmp = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 3));
               s_3_0 = _mm_add_pd(s_3_0, _mm_sub_pd(s_3_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -5271,7 +5271,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               __m128d s_buffer[(binned_DBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm_load1_pd(priY + (incpriY * j));
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -5482,11 +5482,11 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
+                  for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8)){
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -5536,8 +5536,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -5563,10 +5563,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm_add_pd(s_0, _mm_or_pd(_mm_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -5581,7 +5581,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_and_pd(_mm_set_pd(0, X[0]), abs_mask_tmp);
@@ -5599,14 +5599,14 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
-                    X_2 = _mm_and_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_3 = _mm_and_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), abs_mask_tmp);
+                  for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8)){
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
+                    X_2 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_3 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -5636,8 +5636,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -5653,10 +5653,10 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_and_pd(_mm_set_pd(X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -5666,7 +5666,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_and_pd(_mm_set_pd(0, X[0]), abs_mask_tmp);
@@ -5679,19 +5679,19 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = _mm_sub_pd(s_buffer[(j * 4)], _mm_set_pd(priY[(incpriY * j)], 0));
-                cons_tmp = _mm_load1_pd(priY + (incpriY * j));
+                s_buffer[(j * 4)] = _mm_sub_pd(s_buffer[(j * 4)], _mm_set_pd(priY[((ptrdiff_t)incpriY * j)], 0));
+                cons_tmp = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * j));
                 s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_sub_pd(s_buffer[((j * 4) + 1)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_sub_pd(s_buffer[((j * 4) + 2)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_sub_pd(s_buffer[((j * 4) + 3)], cons_tmp));
                 _mm_store_pd(cons_buffer_tmp, s_buffer[(j * 4)]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -5719,8 +5719,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               double s_2_0;
 
               s_0_0 = priY[0];
-              s_1_0 = priY[incpriY];
-              s_2_0 = priY[(incpriY * 2)];
+              s_1_0 = priY[(ptrdiff_t)incpriY];
+              s_2_0 = priY[((ptrdiff_t)incpriY * 2)];
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -5770,7 +5770,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = fabs(X[0]);
 
                     q_0 = s_0_0;
@@ -5790,7 +5790,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_2_0 = s_2_0 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = fabs(X[0]);
 
                     q_0 = s_0_0;
@@ -5813,8 +5813,8 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               }
 
               priY[0] = s_0_0;
-              priY[incpriY] = s_1_0;
-              priY[(incpriY * 2)] = s_2_0;
+              priY[(ptrdiff_t)incpriY] = s_1_0;
+              priY[((ptrdiff_t)incpriY * 2)] = s_2_0;
 
             }
             break;
@@ -5829,7 +5829,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               double s_buffer[binned_DBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = priY[(incpriY * j)];
+                s_buffer[j] = priY[((ptrdiff_t)incpriY * j)];
               }
 
               if(incX == 1){
@@ -5881,7 +5881,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = fabs(X[0]);
 
                     s_0 = s_buffer[0];
@@ -5905,7 +5905,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
                     s_buffer[j] = s_buffer[j] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = fabs(X[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5925,7 +5925,7 @@ void binnedBLAS_dmdasum(const int fold, const int N, const double *X, const int
               }
 
               for(j = 0; j < fold; j += 1){
-                priY[(incpriY * j)] = s_buffer[j];
+                priY[((ptrdiff_t)incpriY * j)] = s_buffer[j];
               }
 
             }
diff --git a/src/binnedBLAS/dmddot.ccog b/src/binnedBLAS/dmddot.ccog
index a90cfcd..45dc01f 100644
--- a/src/binnedBLAS/dmddot.ccog
+++ b/src/binnedBLAS/dmddot.ccog
@@ -123,7 +123,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               __m256d s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_sd(priZ);
-              s_1_0 = s_1_1 = _mm256_broadcast_sd(priZ + incpriZ);
+              s_1_0 = s_1_1 = _mm256_broadcast_sd(priZ + (ptrdiff_t)incpriZ);
 
               if(incX == 1){
                 if(incY == 1){
@@ -294,15 +294,15 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
                       X_3 = _mm256_loadu_pd(X + 12);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -332,8 +332,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -347,11 +347,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(_mm256_add_pd(X_1, q_1), q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -359,11 +359,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_pd(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -371,18 +371,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
                       X_3 = _mm256_loadu_pd(X + 12);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -412,8 +412,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -427,11 +427,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -439,11 +439,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_0_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_pd(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -451,7 +451,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_0_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -460,11 +460,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       Y_2 = _mm256_loadu_pd(Y + 8);
@@ -496,8 +496,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -513,10 +513,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(_mm256_add_pd(X_1, q_1), q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -525,10 +525,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -537,14 +537,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       Y_2 = _mm256_loadu_pd(Y + 8);
@@ -576,8 +576,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -593,10 +593,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -605,10 +605,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_0_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -617,22 +617,22 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_0_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -660,10 +660,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -677,11 +677,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(_mm256_add_pd(X_1, q_1), q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -689,11 +689,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -701,18 +701,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -740,10 +740,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -757,11 +757,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -769,11 +769,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_0_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -781,7 +781,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_0_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -792,11 +792,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm256_add_pd(s_0_0, _mm256_sub_pd(s_0_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], 0));
-              cons_tmp = _mm256_broadcast_sd(priZ + incpriZ);
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], 0));
+              cons_tmp = _mm256_broadcast_sd(priZ + (ptrdiff_t)incpriZ);
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -816,8 +816,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               __m256d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_sd(priZ);
-              s_1_0 = s_1_1 = _mm256_broadcast_sd(priZ + incpriZ);
-              s_2_0 = s_2_1 = _mm256_broadcast_sd(priZ + (incpriZ * 2));
+              s_1_0 = s_1_1 = _mm256_broadcast_sd(priZ + (ptrdiff_t)incpriZ);
+              s_2_0 = s_2_1 = _mm256_broadcast_sd(priZ + ((ptrdiff_t)incpriZ * 2));
 
               if(incX == 1){
                 if(incY == 1){
@@ -1052,15 +1052,15 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
                       X_3 = _mm256_loadu_pd(X + 12);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -1106,8 +1106,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -1129,11 +1129,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1145,11 +1145,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_pd(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1161,18 +1161,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
                       X_3 = _mm256_loadu_pd(X + 12);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -1218,8 +1218,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -1241,11 +1241,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1257,11 +1257,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_pd(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1273,7 +1273,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -1282,11 +1282,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       Y_2 = _mm256_loadu_pd(Y + 8);
@@ -1334,8 +1334,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -1359,10 +1359,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -1375,10 +1375,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -1391,14 +1391,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       Y_2 = _mm256_loadu_pd(Y + 8);
@@ -1446,8 +1446,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -1471,10 +1471,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -1487,10 +1487,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -1503,22 +1503,22 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -1562,10 +1562,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -1587,11 +1587,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1603,11 +1603,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1619,18 +1619,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -1674,10 +1674,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -1699,11 +1699,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1715,11 +1715,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1731,7 +1731,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_1_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -1742,16 +1742,16 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm256_add_pd(s_0_0, _mm256_sub_pd(s_0_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], 0));
-              cons_tmp = _mm256_broadcast_sd(priZ + incpriZ);
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], 0));
+              cons_tmp = _mm256_broadcast_sd(priZ + (ptrdiff_t)incpriZ);
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], 0));
-              cons_tmp = _mm256_broadcast_sd(priZ + (incpriZ * 2));
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], 0));
+              cons_tmp = _mm256_broadcast_sd(priZ + ((ptrdiff_t)incpriZ * 2));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              priZ[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priZ[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1772,9 +1772,9 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               __m256d s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_sd(priZ);
-              s_1_0 = s_1_1 = _mm256_broadcast_sd(priZ + incpriZ);
-              s_2_0 = s_2_1 = _mm256_broadcast_sd(priZ + (incpriZ * 2));
-              s_3_0 = s_3_1 = _mm256_broadcast_sd(priZ + (incpriZ * 3));
+              s_1_0 = s_1_1 = _mm256_broadcast_sd(priZ + (ptrdiff_t)incpriZ);
+              s_2_0 = s_2_1 = _mm256_broadcast_sd(priZ + ((ptrdiff_t)incpriZ * 2));
+              s_3_0 = s_3_1 = _mm256_broadcast_sd(priZ + ((ptrdiff_t)incpriZ * 3));
 
               if(incX == 1){
                 if(incY == 1){
@@ -2073,15 +2073,15 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
                       X_3 = _mm256_loadu_pd(X + 12);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -2143,8 +2143,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -2174,11 +2174,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2194,11 +2194,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_pd(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2214,18 +2214,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
                       X_3 = _mm256_loadu_pd(X + 12);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -2287,8 +2287,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -2318,11 +2318,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2338,11 +2338,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_pd(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2358,7 +2358,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -2367,11 +2367,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       Y_2 = _mm256_loadu_pd(Y + 8);
@@ -2435,8 +2435,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -2468,10 +2468,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -2488,10 +2488,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -2508,14 +2508,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       Y_2 = _mm256_loadu_pd(Y + 8);
@@ -2579,8 +2579,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -2612,10 +2612,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -2632,10 +2632,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -2652,22 +2652,22 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -2727,10 +2727,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -2760,11 +2760,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2780,11 +2780,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2800,18 +2800,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -2871,10 +2871,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -2904,11 +2904,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2924,11 +2924,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2944,7 +2944,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm256_sub_pd(q_0, s_2_0);
                       X_0 = _mm256_add_pd(X_0, q_0);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -2955,21 +2955,21 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm256_add_pd(s_0_0, _mm256_sub_pd(s_0_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], 0));
-              cons_tmp = _mm256_broadcast_sd(priZ + incpriZ);
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], 0));
+              cons_tmp = _mm256_broadcast_sd(priZ + (ptrdiff_t)incpriZ);
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], 0));
-              cons_tmp = _mm256_broadcast_sd(priZ + (incpriZ * 2));
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], 0));
+              cons_tmp = _mm256_broadcast_sd(priZ + ((ptrdiff_t)incpriZ * 2));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              priZ[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(priZ[(incpriZ * 3)], priZ[(incpriZ * 3)], priZ[(incpriZ * 3)], 0));
-              cons_tmp = _mm256_broadcast_sd(priZ + (incpriZ * 3));
+              priZ[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(priZ[((ptrdiff_t)incpriZ * 3)], priZ[((ptrdiff_t)incpriZ * 3)], priZ[((ptrdiff_t)incpriZ * 3)], 0));
+              cons_tmp = _mm256_broadcast_sd(priZ + ((ptrdiff_t)incpriZ * 3));
               s_3_0 = _mm256_add_pd(s_3_0, _mm256_sub_pd(s_3_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_3_0);
-              priZ[(incpriZ * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priZ[((ptrdiff_t)incpriZ * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2988,7 +2988,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               __m256d s_buffer[(binned_DBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm256_broadcast_sd(priZ + (incpriZ * j));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm256_broadcast_sd(priZ + ((ptrdiff_t)incpriZ * j));
               }
 
               if(incX == 1){
@@ -3444,7 +3444,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += ((ptrdiff_t)incY * 32)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -3453,14 +3453,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_5 = _mm256_loadu_pd(X + 20);
                       X_6 = _mm256_loadu_pd(X + 24);
                       X_7 = _mm256_loadu_pd(X + 28);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_4 = _mm256_set_pd(Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_5 = _mm256_set_pd(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_6 = _mm256_set_pd(Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
-                      Y_7 = _mm256_set_pd(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_4 = _mm256_set_pd(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_5 = _mm256_set_pd(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_6 = _mm256_set_pd(Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
+                      Y_7 = _mm256_set_pd(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -3572,10 +3572,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
                       X_3 = _mm256_loadu_pd(X + 12);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -3629,13 +3629,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -3663,11 +3663,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -3683,11 +3683,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_pd(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -3703,10 +3703,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += ((ptrdiff_t)incY * 32)){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
@@ -3715,14 +3715,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_5 = _mm256_loadu_pd(X + 20);
                       X_6 = _mm256_loadu_pd(X + 24);
                       X_7 = _mm256_loadu_pd(X + 28);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_4 = _mm256_set_pd(Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_5 = _mm256_set_pd(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_6 = _mm256_set_pd(Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
-                      Y_7 = _mm256_set_pd(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_4 = _mm256_set_pd(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_5 = _mm256_set_pd(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_6 = _mm256_set_pd(Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
+                      Y_7 = _mm256_set_pd(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -3794,10 +3794,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_loadu_pd(X + 4);
                       X_2 = _mm256_loadu_pd(X + 8);
                       X_3 = _mm256_loadu_pd(X + 12);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -3831,13 +3831,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
                       X_1 = _mm256_loadu_pd(X + 4);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -3855,11 +3855,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm256_loadu_pd(X);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -3870,11 +3870,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_pd(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -3885,7 +3885,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -3894,15 +3894,15 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      X_4 = _mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_5 = _mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                      X_6 = _mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      X_7 = _mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += 32){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_4 = _mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_5 = _mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_6 = _mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      X_7 = _mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       Y_2 = _mm256_loadu_pd(Y + 8);
@@ -4018,10 +4018,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       Y_2 = _mm256_loadu_pd(Y + 8);
@@ -4079,11 +4079,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -4113,10 +4113,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -4133,10 +4133,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -4153,18 +4153,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      X_4 = _mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_5 = _mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                      X_6 = _mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      X_7 = _mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += 32){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_4 = _mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_5 = _mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_6 = _mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      X_7 = _mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       Y_2 = _mm256_loadu_pd(Y + 8);
@@ -4240,10 +4240,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       Y_2 = _mm256_loadu_pd(Y + 8);
@@ -4281,11 +4281,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm256_loadu_pd(Y);
                       Y_1 = _mm256_loadu_pd(Y + 4);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
@@ -4305,10 +4305,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_pd(Y);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -4320,10 +4320,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
@@ -4335,30 +4335,30 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      X_4 = _mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_5 = _mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                      X_6 = _mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      X_7 = _mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_4 = _mm256_set_pd(Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_5 = _mm256_set_pd(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_6 = _mm256_set_pd(Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
-                      Y_7 = _mm256_set_pd(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_4 = _mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_5 = _mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_6 = _mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      X_7 = _mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_4 = _mm256_set_pd(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_5 = _mm256_set_pd(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_6 = _mm256_set_pd(Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
+                      Y_7 = _mm256_set_pd(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -4466,14 +4466,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -4527,13 +4527,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -4561,11 +4561,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -4581,11 +4581,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -4601,26 +4601,26 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      X_4 = _mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_5 = _mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                      X_6 = _mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      X_7 = _mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_4 = _mm256_set_pd(Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_5 = _mm256_set_pd(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_6 = _mm256_set_pd(Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
-                      Y_7 = _mm256_set_pd(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_4 = _mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_5 = _mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_6 = _mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      X_7 = _mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_4 = _mm256_set_pd(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_5 = _mm256_set_pd(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_6 = _mm256_set_pd(Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
+                      Y_7 = _mm256_set_pd(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -4688,14 +4688,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_7, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm256_set_pd(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm256_set_pd(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm256_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm256_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
                       X_2 = _mm256_mul_pd(X_2, Y_2);
@@ -4729,13 +4729,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_3, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_pd(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
                       X_1 = _mm256_mul_pd(X_1, Y_1);
 
@@ -4753,11 +4753,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_pd(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -4768,11 +4768,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_pd(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_pd(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -4783,18 +4783,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm256_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm256_sub_pd(s_buffer[(j * 2)], _mm256_set_pd(priZ[(incpriZ * j)], priZ[(incpriZ * j)], priZ[(incpriZ * j)], 0));
-                cons_tmp = _mm256_broadcast_sd(priZ + (incpriZ * j));
+                s_buffer[(j * 2)] = _mm256_sub_pd(s_buffer[(j * 2)], _mm256_set_pd(priZ[((ptrdiff_t)incpriZ * j)], priZ[((ptrdiff_t)incpriZ * j)], priZ[((ptrdiff_t)incpriZ * j)], 0));
+                cons_tmp = _mm256_broadcast_sd(priZ + ((ptrdiff_t)incpriZ * j));
                 s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_sub_pd(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm256_store_pd(cons_buffer_tmp, s_buffer[(j * 2)]);
-                priZ[(incpriZ * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+                priZ[((ptrdiff_t)incpriZ * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -4831,7 +4831,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               __m128d s_1_0, s_1_1, s_1_2, s_1_3;
 
               s_0_0 = s_0_1 = s_0_2 = s_0_3 = _mm_load1_pd(priZ);
-              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm_load1_pd(priZ + incpriZ);
+              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm_load1_pd(priZ + (ptrdiff_t)incpriZ);
 
               if(incX == 1){
                 if(incY == 1){
@@ -5338,7 +5338,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += (incY * 24)){
+                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += ((ptrdiff_t)incY * 24)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5351,18 +5351,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_9 = _mm_loadu_pd(X + 18);
                       X_10 = _mm_loadu_pd(X + 20);
                       X_11 = _mm_loadu_pd(X + 22);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
-                      Y_8 = _mm_set_pd(Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_9 = _mm_set_pd(Y[(incY * 19)], Y[(incY * 18)]);
-                      Y_10 = _mm_set_pd(Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_11 = _mm_set_pd(Y[(incY * 23)], Y[(incY * 22)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
+                      Y_8 = _mm_set_pd(Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_9 = _mm_set_pd(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)]);
+                      Y_10 = _mm_set_pd(Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_11 = _mm_set_pd(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -5446,14 +5446,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_5 = _mm_loadu_pd(X + 10);
                       X_6 = _mm_loadu_pd(X + 12);
                       X_7 = _mm_loadu_pd(X + 14);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -5503,17 +5503,17 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_5, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_6, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
                       X_3 = _mm_loadu_pd(X + 6);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -5539,13 +5539,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_2, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -5559,11 +5559,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(_mm_add_pd(X_1, q_1), q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
                       X_0 = _mm_loadu_pd(X);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -5571,7 +5571,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += 2, Y += (incY * 2);
+                      i += 2, X += 2, Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -5583,10 +5583,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += (incY * 24)){
+                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += ((ptrdiff_t)incY * 24)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -5599,18 +5599,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_9 = _mm_loadu_pd(X + 18);
                       X_10 = _mm_loadu_pd(X + 20);
                       X_11 = _mm_loadu_pd(X + 22);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
-                      Y_8 = _mm_set_pd(Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_9 = _mm_set_pd(Y[(incY * 19)], Y[(incY * 18)]);
-                      Y_10 = _mm_set_pd(Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_11 = _mm_set_pd(Y[(incY * 23)], Y[(incY * 22)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
+                      Y_8 = _mm_set_pd(Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_9 = _mm_set_pd(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)]);
+                      Y_10 = _mm_set_pd(Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_11 = _mm_set_pd(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -5694,14 +5694,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_5 = _mm_loadu_pd(X + 10);
                       X_6 = _mm_loadu_pd(X + 12);
                       X_7 = _mm_loadu_pd(X + 14);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -5751,17 +5751,17 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_5, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_6, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
                       X_3 = _mm_loadu_pd(X + 6);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -5787,13 +5787,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_2, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -5807,11 +5807,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
                       X_0 = _mm_loadu_pd(X);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -5819,7 +5819,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_0_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += 2, Y += (incY * 2);
+                      i += 2, X += 2, Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -5831,7 +5831,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_0_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -5840,19 +5840,19 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += 24){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                      X_8 = _mm_set_pd(X[(incX * 17)], X[(incX * 16)]);
-                      X_9 = _mm_set_pd(X[(incX * 19)], X[(incX * 18)]);
-                      X_10 = _mm_set_pd(X[(incX * 21)], X[(incX * 20)]);
-                      X_11 = _mm_set_pd(X[(incX * 23)], X[(incX * 22)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24), Y += 24){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                      X_8 = _mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_9 = _mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]);
+                      X_10 = _mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_11 = _mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -5940,14 +5940,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -6005,13 +6005,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_5, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_6, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -6041,11 +6041,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_2, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -6061,10 +6061,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(_mm_add_pd(X_1, q_1), q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
@@ -6073,7 +6073,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += 2;
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += 2;
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -6085,22 +6085,22 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += 24){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                      X_8 = _mm_set_pd(X[(incX * 17)], X[(incX * 16)]);
-                      X_9 = _mm_set_pd(X[(incX * 19)], X[(incX * 18)]);
-                      X_10 = _mm_set_pd(X[(incX * 21)], X[(incX * 20)]);
-                      X_11 = _mm_set_pd(X[(incX * 23)], X[(incX * 22)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24), Y += 24){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                      X_8 = _mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_9 = _mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]);
+                      X_10 = _mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_11 = _mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -6188,14 +6188,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -6253,13 +6253,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_5, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_6, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -6289,11 +6289,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_2, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -6309,10 +6309,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
@@ -6321,7 +6321,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_0_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += 2;
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += 2;
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -6333,38 +6333,38 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_0_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += (incY * 24)){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                      X_8 = _mm_set_pd(X[(incX * 17)], X[(incX * 16)]);
-                      X_9 = _mm_set_pd(X[(incX * 19)], X[(incX * 18)]);
-                      X_10 = _mm_set_pd(X[(incX * 21)], X[(incX * 20)]);
-                      X_11 = _mm_set_pd(X[(incX * 23)], X[(incX * 22)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
-                      Y_8 = _mm_set_pd(Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_9 = _mm_set_pd(Y[(incY * 19)], Y[(incY * 18)]);
-                      Y_10 = _mm_set_pd(Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_11 = _mm_set_pd(Y[(incY * 23)], Y[(incY * 22)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24), Y += ((ptrdiff_t)incY * 24)){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                      X_8 = _mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_9 = _mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]);
+                      X_10 = _mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_11 = _mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
+                      Y_8 = _mm_set_pd(Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_9 = _mm_set_pd(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)]);
+                      Y_10 = _mm_set_pd(Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_11 = _mm_set_pd(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -6440,22 +6440,22 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -6505,17 +6505,17 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_5, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_6, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -6541,13 +6541,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_2, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -6561,11 +6561,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(_mm_add_pd(X_1, q_1), q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -6573,7 +6573,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += (incY * 2);
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -6585,34 +6585,34 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += (incY * 24)){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                      X_8 = _mm_set_pd(X[(incX * 17)], X[(incX * 16)]);
-                      X_9 = _mm_set_pd(X[(incX * 19)], X[(incX * 18)]);
-                      X_10 = _mm_set_pd(X[(incX * 21)], X[(incX * 20)]);
-                      X_11 = _mm_set_pd(X[(incX * 23)], X[(incX * 22)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
-                      Y_8 = _mm_set_pd(Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_9 = _mm_set_pd(Y[(incY * 19)], Y[(incY * 18)]);
-                      Y_10 = _mm_set_pd(Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_11 = _mm_set_pd(Y[(incY * 23)], Y[(incY * 22)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24), Y += ((ptrdiff_t)incY * 24)){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                      X_8 = _mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_9 = _mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]);
+                      X_10 = _mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_11 = _mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
+                      Y_8 = _mm_set_pd(Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_9 = _mm_set_pd(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)]);
+                      Y_10 = _mm_set_pd(Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_11 = _mm_set_pd(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -6688,22 +6688,22 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_11, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -6753,17 +6753,17 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_5, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_6, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_7, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -6789,13 +6789,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                       s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(X_2, blp_mask_tmp));
                       s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -6809,11 +6809,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -6821,7 +6821,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_0_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += (incY * 2);
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -6833,7 +6833,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_0_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -6846,13 +6846,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm_add_pd(s_0_0, _mm_sub_pd(s_0_3, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priZ[incpriZ], 0));
-              cons_tmp = _mm_load1_pd(priZ + incpriZ);
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priZ[(ptrdiff_t)incpriZ], 0));
+              cons_tmp = _mm_load1_pd(priZ + (ptrdiff_t)incpriZ);
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_2, cons_tmp));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_3, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -6872,8 +6872,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               __m128d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm_load1_pd(priZ);
-              s_1_0 = s_1_1 = _mm_load1_pd(priZ + incpriZ);
-              s_2_0 = s_2_1 = _mm_load1_pd(priZ + (incpriZ * 2));
+              s_1_0 = s_1_1 = _mm_load1_pd(priZ + (ptrdiff_t)incpriZ);
+              s_2_0 = s_2_1 = _mm_load1_pd(priZ + ((ptrdiff_t)incpriZ * 2));
 
               if(incX == 1){
                 if(incY == 1){
@@ -7308,7 +7308,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -7317,14 +7317,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_5 = _mm_loadu_pd(X + 10);
                       X_6 = _mm_loadu_pd(X + 12);
                       X_7 = _mm_loadu_pd(X + 14);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -7412,10 +7412,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
                       X_3 = _mm_loadu_pd(X + 6);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -7457,13 +7457,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -7485,11 +7485,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
                       X_0 = _mm_loadu_pd(X);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -7501,7 +7501,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += 2, Y += (incY * 2);
+                      i += 2, X += 2, Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -7517,10 +7517,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
@@ -7529,14 +7529,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_5 = _mm_loadu_pd(X + 10);
                       X_6 = _mm_loadu_pd(X + 12);
                       X_7 = _mm_loadu_pd(X + 14);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -7624,10 +7624,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
                       X_3 = _mm_loadu_pd(X + 6);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -7669,13 +7669,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -7697,11 +7697,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
                       X_0 = _mm_loadu_pd(X);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -7713,7 +7713,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += 2, Y += (incY * 2);
+                      i += 2, X += 2, Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -7729,7 +7729,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -7738,15 +7738,15 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -7838,10 +7838,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -7887,11 +7887,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -7915,10 +7915,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
@@ -7931,7 +7931,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += 2;
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += 2;
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -7947,18 +7947,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -8050,10 +8050,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -8099,11 +8099,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -8127,10 +8127,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
@@ -8143,7 +8143,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += 2;
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += 2;
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -8159,30 +8159,30 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -8266,14 +8266,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -8315,13 +8315,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -8343,11 +8343,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -8359,7 +8359,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += (incY * 2);
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -8375,26 +8375,26 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                      X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
-                      Y_6 = _mm_set_pd(Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_7 = _mm_set_pd(Y[(incY * 15)], Y[(incY * 14)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
+                      Y_6 = _mm_set_pd(Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_7 = _mm_set_pd(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -8478,14 +8478,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_7, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -8527,13 +8527,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -8555,11 +8555,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -8571,7 +8571,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += (incY * 2);
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -8587,7 +8587,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_1_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -8598,16 +8598,16 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm_add_pd(s_0_0, _mm_sub_pd(s_0_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priZ[incpriZ], 0));
-              cons_tmp = _mm_load1_pd(priZ + incpriZ);
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priZ[(ptrdiff_t)incpriZ], 0));
+              cons_tmp = _mm_load1_pd(priZ + (ptrdiff_t)incpriZ);
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priZ[(incpriZ * 2)], 0));
-              cons_tmp = _mm_load1_pd(priZ + (incpriZ * 2));
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priZ[((ptrdiff_t)incpriZ * 2)], 0));
+              cons_tmp = _mm_load1_pd(priZ + ((ptrdiff_t)incpriZ * 2));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              priZ[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priZ[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -8628,9 +8628,9 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               __m128d s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = _mm_load1_pd(priZ);
-              s_1_0 = s_1_1 = _mm_load1_pd(priZ + incpriZ);
-              s_2_0 = s_2_1 = _mm_load1_pd(priZ + (incpriZ * 2));
-              s_3_0 = s_3_1 = _mm_load1_pd(priZ + (incpriZ * 3));
+              s_1_0 = s_1_1 = _mm_load1_pd(priZ + (ptrdiff_t)incpriZ);
+              s_2_0 = s_2_1 = _mm_load1_pd(priZ + ((ptrdiff_t)incpriZ * 2));
+              s_3_0 = s_3_1 = _mm_load1_pd(priZ + ((ptrdiff_t)incpriZ * 3));
 
               if(incX == 1){
                 if(incY == 1){
@@ -9129,19 +9129,19 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 12 <= N_block; i += 12, X += 12, Y += (incY * 12)){
+                    for(i = 0; i + 12 <= N_block; i += 12, X += 12, Y += ((ptrdiff_t)incY * 12)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
                       X_3 = _mm_loadu_pd(X + 6);
                       X_4 = _mm_loadu_pd(X + 8);
                       X_5 = _mm_loadu_pd(X + 10);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -9233,10 +9233,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
                       X_3 = _mm_loadu_pd(X + 6);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -9294,13 +9294,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -9330,11 +9330,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
                       X_0 = _mm_loadu_pd(X);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -9350,7 +9350,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += 2, Y += (incY * 2);
+                      i += 2, X += 2, Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -9370,22 +9370,22 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, X += 12, Y += (incY * 12)){
+                    for(i = 0; i + 12 <= N_block; i += 12, X += 12, Y += ((ptrdiff_t)incY * 12)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
                       X_3 = _mm_loadu_pd(X + 6);
                       X_4 = _mm_loadu_pd(X + 8);
                       X_5 = _mm_loadu_pd(X + 10);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -9477,10 +9477,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
                       X_3 = _mm_loadu_pd(X + 6);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -9538,13 +9538,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -9574,11 +9574,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
                       X_0 = _mm_loadu_pd(X);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -9594,7 +9594,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += 2, Y += (incY * 2);
+                      i += 2, X += 2, Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -9614,7 +9614,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -9623,13 +9623,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12), Y += 12){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, X += ((ptrdiff_t)incX * 12), Y += 12){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -9723,10 +9723,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -9788,11 +9788,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -9824,10 +9824,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
@@ -9844,7 +9844,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += 2;
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += 2;
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -9864,16 +9864,16 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12), Y += 12){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, X += ((ptrdiff_t)incX * 12), Y += 12){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -9967,10 +9967,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -10032,11 +10032,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -10068,10 +10068,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
@@ -10088,7 +10088,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += 2;
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += 2;
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -10108,26 +10108,26 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12), Y += (incY * 12)){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, X += ((ptrdiff_t)incX * 12), Y += ((ptrdiff_t)incY * 12)){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -10215,14 +10215,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -10280,13 +10280,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -10316,11 +10316,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -10336,7 +10336,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += (incY * 2);
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -10356,22 +10356,22 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12), Y += (incY * 12)){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                      X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
-                      Y_4 = _mm_set_pd(Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_5 = _mm_set_pd(Y[(incY * 11)], Y[(incY * 10)]);
+                    for(i = 0; i + 12 <= N_block; i += 12, X += ((ptrdiff_t)incX * 12), Y += ((ptrdiff_t)incY * 12)){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
+                      Y_4 = _mm_set_pd(Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_5 = _mm_set_pd(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -10459,14 +10459,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_5, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -10524,13 +10524,13 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_3 = _mm_add_pd(X_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -10560,11 +10560,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       X_1 = _mm_add_pd(X_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -10580,7 +10580,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += (incY * 2);
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -10600,7 +10600,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       q_0 = _mm_sub_pd(q_0, s_2_0);
                       X_0 = _mm_add_pd(X_0, q_0);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -10611,21 +10611,21 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm_add_pd(s_0_0, _mm_sub_pd(s_0_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priZ[incpriZ], 0));
-              cons_tmp = _mm_load1_pd(priZ + incpriZ);
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priZ[(ptrdiff_t)incpriZ], 0));
+              cons_tmp = _mm_load1_pd(priZ + (ptrdiff_t)incpriZ);
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priZ[(incpriZ * 2)], 0));
-              cons_tmp = _mm_load1_pd(priZ + (incpriZ * 2));
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priZ[((ptrdiff_t)incpriZ * 2)], 0));
+              cons_tmp = _mm_load1_pd(priZ + ((ptrdiff_t)incpriZ * 2));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              priZ[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_3_0 = _mm_sub_pd(s_3_0, _mm_set_pd(priZ[(incpriZ * 3)], 0));
-              cons_tmp = _mm_load1_pd(priZ + (incpriZ * 3));
+              priZ[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_3_0 = _mm_sub_pd(s_3_0, _mm_set_pd(priZ[((ptrdiff_t)incpriZ * 3)], 0));
+              cons_tmp = _mm_load1_pd(priZ + ((ptrdiff_t)incpriZ * 3));
               s_3_0 = _mm_add_pd(s_3_0, _mm_sub_pd(s_3_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_3_0);
-              priZ[(incpriZ * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priZ[((ptrdiff_t)incpriZ * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -10644,7 +10644,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               __m128d s_buffer[(binned_DBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm_load1_pd(priZ + (incpriZ * j));
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm_load1_pd(priZ + ((ptrdiff_t)incpriZ * j));
               }
 
               if(incX == 1){
@@ -10888,15 +10888,15 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += (incY * 8)){
+                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += ((ptrdiff_t)incY * 8)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
                       X_3 = _mm_loadu_pd(X + 6);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -10952,8 +10952,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -10981,11 +10981,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
                       X_0 = _mm_loadu_pd(X);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -11001,7 +11001,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += 2, Y += (incY * 2);
+                      i += 2, X += 2, Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -11021,18 +11021,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += (incY * 8)){
+                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += ((ptrdiff_t)incY * 8)){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
                       X_2 = _mm_loadu_pd(X + 4);
                       X_3 = _mm_loadu_pd(X + 6);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -11068,8 +11068,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_pd(X);
                       X_1 = _mm_loadu_pd(X + 2);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -11087,11 +11087,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
                       X_0 = _mm_loadu_pd(X);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -11102,7 +11102,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += 2, Y += (incY * 2);
+                      i += 2, X += 2, Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -11117,7 +11117,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -11126,11 +11126,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += 8){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8), Y += 8){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -11188,8 +11188,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -11219,10 +11219,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
@@ -11239,7 +11239,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += 2;
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += 2;
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -11259,14 +11259,14 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += 8){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8), Y += 8){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       Y_2 = _mm_loadu_pd(Y + 4);
@@ -11304,8 +11304,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
                       Y_0 = _mm_loadu_pd(Y);
                       Y_1 = _mm_loadu_pd(Y + 2);
                       X_0 = _mm_mul_pd(X_0, Y_0);
@@ -11325,10 +11325,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_pd(Y);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
@@ -11340,7 +11340,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += 2;
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += 2;
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -11355,22 +11355,22 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_dmindex0(priZ)){
                     compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                     expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += (incY * 8)){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8)){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -11424,10 +11424,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -11455,11 +11455,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -11475,7 +11475,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += (incY * 2);
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -11495,18 +11495,18 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += (incY * 8)){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                      X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
-                      Y_2 = _mm_set_pd(Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_3 = _mm_set_pd(Y[(incY * 7)], Y[(incY * 6)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8)){
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
+                      Y_2 = _mm_set_pd(Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_3 = _mm_set_pd(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
                       X_2 = _mm_mul_pd(X_2, Y_2);
@@ -11540,10 +11540,10 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
-                      Y_1 = _mm_set_pd(Y[(incY * 3)], Y[(incY * 2)]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_pd(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
                       X_1 = _mm_mul_pd(X_1, Y_1);
 
@@ -11561,11 +11561,11 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 2 <= N_block){
-                      X_0 = _mm_set_pd(X[incX], X[0]);
-                      Y_0 = _mm_set_pd(Y[incY], Y[0]);
+                      X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_pd(Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_pd(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -11576,7 +11576,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      i += 2, X += (incX * 2), Y += (incY * 2);
+                      i += 2, X += ((ptrdiff_t)incX * 2), Y += ((ptrdiff_t)incY * 2);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_pd(0, X[0]);
@@ -11591,20 +11591,20 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                         X_0 = _mm_add_pd(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = _mm_sub_pd(s_buffer[(j * 4)], _mm_set_pd(priZ[(incpriZ * j)], 0));
-                cons_tmp = _mm_load1_pd(priZ + (incpriZ * j));
+                s_buffer[(j * 4)] = _mm_sub_pd(s_buffer[(j * 4)], _mm_set_pd(priZ[((ptrdiff_t)incpriZ * j)], 0));
+                cons_tmp = _mm_load1_pd(priZ + ((ptrdiff_t)incpriZ * j));
                 s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_sub_pd(s_buffer[((j * 4) + 1)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_sub_pd(s_buffer[((j * 4) + 2)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_sub_pd(s_buffer[((j * 4) + 3)], cons_tmp));
                 _mm_store_pd(cons_buffer_tmp, s_buffer[(j * 4)]);
-                priZ[(incpriZ * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+                priZ[((ptrdiff_t)incpriZ * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -11633,8 +11633,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               double s_2_0;
 
               s_0_0 = priZ[0];
-              s_1_0 = priZ[incpriZ];
-              s_2_0 = priZ[(incpriZ * 2)];
+              s_1_0 = priZ[(ptrdiff_t)incpriZ];
+              s_2_0 = priZ[((ptrdiff_t)incpriZ * 2)];
 
               if(incX == 1){
                 if(incY == 1){
@@ -11689,7 +11689,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11711,7 +11711,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = s_2_0 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11739,7 +11739,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11761,7 +11761,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = s_2_0 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11787,7 +11787,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11809,7 +11809,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_2_0 = s_2_0 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11835,8 +11835,8 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               }
 
               priZ[0] = s_0_0;
-              priZ[incpriZ] = s_1_0;
-              priZ[(incpriZ * 2)] = s_2_0;
+              priZ[(ptrdiff_t)incpriZ] = s_1_0;
+              priZ[((ptrdiff_t)incpriZ * 2)] = s_2_0;
 
             }
             break;
@@ -11852,7 +11852,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               double s_buffer[binned_DBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = priZ[(incpriZ * j)];
+                s_buffer[j] = priZ[((ptrdiff_t)incpriZ * j)];
               }
 
               if(incX == 1){
@@ -11909,7 +11909,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11935,7 +11935,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[j] = s_buffer[j] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11960,7 +11960,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -11986,7 +11986,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[j] = s_buffer[j] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -12009,7 +12009,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                   if(binned_dmindex0(priZ)){
                     compression_0 = binned_DMCOMPRESSION;
                     expansion_0 = binned_DMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -12035,7 +12035,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
                       s_buffer[j] = s_buffer[j] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -12058,7 +12058,7 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
               }
 
               for(j = 0; j < fold; j += 1){
-                priZ[(incpriZ * j)] = s_buffer[j];
+                priZ[((ptrdiff_t)incpriZ * j)] = s_buffer[j];
               }
 
             }
diff --git a/src/binnedBLAS/dmdssq.ccog b/src/binnedBLAS/dmdssq.ccog
index f638319..0bdfc1b 100644
--- a/src/binnedBLAS/dmdssq.ccog
+++ b/src/binnedBLAS/dmdssq.ccog
@@ -132,7 +132,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               __m256d s_1_0;
 
               s_0_0 = _mm256_broadcast_sd(priY);
-              s_1_0 = _mm256_broadcast_sd(priY + incpriY);
+              s_1_0 = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -378,13 +378,13 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24)){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
+                  for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24)){
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
                     X_2 = _mm256_mul_pd(X_2, X_2);
@@ -424,10 +424,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_5, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
                     X_2 = _mm256_mul_pd(X_2, X_2);
@@ -453,11 +453,11 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                     X_3 = _mm256_add_pd(_mm256_add_pd(X_3, q_0), q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
 
@@ -471,10 +471,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                     X_1 = _mm256_add_pd(_mm256_add_pd(X_1, q_0), q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -482,10 +482,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -493,16 +493,16 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24)){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
+                  for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24)){
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
                     X_2 = _mm256_mul_pd(X_2, X_2);
@@ -542,10 +542,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_5, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
                     X_2 = _mm256_mul_pd(X_2, X_2);
@@ -571,11 +571,11 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     X_3 = _mm256_add_pd(X_3, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
 
@@ -589,10 +589,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     X_1 = _mm256_add_pd(X_1, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -600,10 +600,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -611,7 +611,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -619,9 +619,9 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               s_0_0 = _mm256_sub_pd(s_0_0, _mm256_set_pd(priY[0], priY[0], priY[0], 0));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -640,8 +640,8 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               __m256d s_2_0, s_2_1, s_2_2, s_2_3;
 
               s_0_0 = s_0_1 = s_0_2 = s_0_3 = _mm256_broadcast_sd(priY);
-              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm256_broadcast_sd(priY + incpriY);
-              s_2_0 = s_2_1 = s_2_2 = s_2_3 = _mm256_broadcast_sd(priY + (incpriY * 2));
+              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = s_2_2 = s_2_3 = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -859,11 +859,11 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
                     X_2 = _mm256_mul_pd(X_2, X_2);
@@ -907,8 +907,8 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
 
@@ -930,10 +930,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_1 = _mm256_add_pd(X_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -945,10 +945,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -960,14 +960,14 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
                     X_2 = _mm256_mul_pd(X_2, X_2);
@@ -1011,8 +1011,8 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
 
@@ -1034,10 +1034,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     X_1 = _mm256_add_pd(X_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1049,10 +1049,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1064,7 +1064,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -1076,20 +1076,20 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               s_0_0 = _mm256_add_pd(s_0_0, _mm256_sub_pd(s_0_3, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + incpriY);
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_2, cons_tmp));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_3, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_2, cons_tmp));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_3, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1109,9 +1109,9 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               __m256d s_3_0;
 
               s_0_0 = _mm256_broadcast_sd(priY);
-              s_1_0 = _mm256_broadcast_sd(priY + incpriY);
-              s_2_0 = _mm256_broadcast_sd(priY + (incpriY * 2));
-              s_3_0 = _mm256_broadcast_sd(priY + (incpriY * 3));
+              s_1_0 = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -1265,9 +1265,9 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                  for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8)){
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
 
@@ -1299,7 +1299,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1315,10 +1315,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1334,12 +1334,12 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                  for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8)){
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
                     X_1 = _mm256_mul_pd(X_1, X_1);
 
@@ -1371,7 +1371,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_1, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1387,10 +1387,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1406,7 +1406,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -1414,15 +1414,15 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               s_0_0 = _mm256_sub_pd(s_0_0, _mm256_set_pd(priY[0], priY[0], priY[0], 0));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], 0));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], 0));
               _mm256_store_pd(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1440,7 +1440,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               __m256d s_buffer[binned_DBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_broadcast_sd(priY + (incpriY * j));
+                s_buffer[j] = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -1517,8 +1517,8 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                  for(i = 0; i + 4 <= N_block; i += 4, X += ((ptrdiff_t)incX * 4)){
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     s_0 = s_buffer[0];
@@ -1536,7 +1536,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     s_0 = s_buffer[0];
@@ -1552,11 +1552,11 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                       X_0 = _mm256_add_pd(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                  for(i = 0; i + 4 <= N_block; i += 4, X += ((ptrdiff_t)incX * 4)){
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -1569,7 +1569,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_pd(_mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_pd(X_0, X_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -1580,15 +1580,15 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                       X_0 = _mm256_add_pd(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_sub_pd(s_buffer[j], _mm256_set_pd(priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], 0));
+                s_buffer[j] = _mm256_sub_pd(s_buffer[j], _mm256_set_pd(priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], 0));
                 _mm256_store_pd(cons_buffer_tmp, s_buffer[j]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -1625,7 +1625,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               __m128d s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm_load1_pd(priY);
-              s_1_0 = s_1_1 = _mm_load1_pd(priY + incpriY);
+              s_1_0 = s_1_1 = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -1715,9 +1715,9 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
+                  for(i = 0; i + 4 <= N_block; i += 4, X += ((ptrdiff_t)incX * 4)){
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
 
@@ -1733,7 +1733,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1741,7 +1741,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_mul_pd(_mm_set_pd(0, X[0]), scale_mask_inv);
@@ -1752,12 +1752,12 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, X += (incX * 4)){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
+                  for(i = 0; i + 4 <= N_block; i += 4, X += ((ptrdiff_t)incX * 4)){
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
 
@@ -1773,7 +1773,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1781,7 +1781,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_mul_pd(_mm_set_pd(0, X[0]), scale_mask_inv);
@@ -1792,7 +1792,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -1802,11 +1802,11 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               s_0_0 = _mm_add_pd(s_0_0, _mm_sub_pd(s_0_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[incpriY], 0));
-              cons_tmp = _mm_load1_pd(priY + incpriY);
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1825,8 +1825,8 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               __m128d s_2_0;
 
               s_0_0 = _mm_load1_pd(priY);
-              s_1_0 = _mm_load1_pd(priY + incpriY);
-              s_2_0 = _mm_load1_pd(priY + (incpriY * 2));
+              s_1_0 = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -2022,10 +2022,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 6 <= N_block; i += 6, X += (incX * 6)){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                  for(i = 0; i + 6 <= N_block; i += 6, X += ((ptrdiff_t)incX * 6)){
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -2059,8 +2059,8 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
 
@@ -2082,10 +2082,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_1 = _mm_add_pd(X_1, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -2097,7 +2097,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_mul_pd(_mm_set_pd(0, X[0]), scale_mask_inv);
@@ -2112,13 +2112,13 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, X += (incX * 6)){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                  for(i = 0; i + 6 <= N_block; i += 6, X += ((ptrdiff_t)incX * 6)){
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -2152,8 +2152,8 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
 
@@ -2175,10 +2175,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_1 = _mm_add_pd(X_1, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -2190,7 +2190,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_mul_pd(_mm_set_pd(0, X[0]), scale_mask_inv);
@@ -2205,7 +2205,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -2213,12 +2213,12 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               s_0_0 = _mm_sub_pd(s_0_0, _mm_set_pd(priY[0], 0));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[incpriY], 0));
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[(ptrdiff_t)incpriY], 0));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2238,9 +2238,9 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               __m128d s_3_0;
 
               s_0_0 = _mm_load1_pd(priY);
-              s_1_0 = _mm_load1_pd(priY + incpriY);
-              s_2_0 = _mm_load1_pd(priY + (incpriY * 2));
-              s_3_0 = _mm_load1_pd(priY + (incpriY * 3));
+              s_1_0 = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -2710,13 +2710,13 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_3 = _mm_mul_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), scale_mask_inv);
-                    X_4 = _mm_mul_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_5 = _mm_mul_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), scale_mask_inv);
+                  for(i = 0; i + 12 <= N_block; i += 12, X += ((ptrdiff_t)incX * 12)){
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_3 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), scale_mask_inv);
+                    X_4 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_5 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -2804,10 +2804,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_5, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_3 = _mm_mul_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_3 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -2865,11 +2865,11 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_3 = _mm_add_pd(X_3, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
 
@@ -2899,10 +2899,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_1 = _mm_add_pd(X_1, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -2918,7 +2918,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_mul_pd(_mm_set_pd(0, X[0]), scale_mask_inv);
@@ -2937,16 +2937,16 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_3 = _mm_mul_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), scale_mask_inv);
-                    X_4 = _mm_mul_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_5 = _mm_mul_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), scale_mask_inv);
+                  for(i = 0; i + 12 <= N_block; i += 12, X += ((ptrdiff_t)incX * 12)){
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_3 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), scale_mask_inv);
+                    X_4 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_5 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -3034,10 +3034,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_5, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_3 = _mm_mul_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_3 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -3095,11 +3095,11 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_3 = _mm_add_pd(X_3, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
 
@@ -3129,10 +3129,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_1 = _mm_add_pd(X_1, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -3148,7 +3148,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_mul_pd(_mm_set_pd(0, X[0]), scale_mask_inv);
@@ -3167,7 +3167,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -3175,15 +3175,15 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               s_0_0 = _mm_sub_pd(s_0_0, _mm_set_pd(priY[0], 0));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[incpriY], 0));
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[(ptrdiff_t)incpriY], 0));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_3_0 = _mm_sub_pd(s_3_0, _mm_set_pd(priY[(incpriY * 3)], 0));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_3_0 = _mm_sub_pd(s_3_0, _mm_set_pd(priY[((ptrdiff_t)incpriY * 3)], 0));
               _mm_store_pd(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3201,7 +3201,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               __m128d s_buffer[(binned_DBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm_load1_pd(priY + (incpriY * j));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -3954,21 +3954,21 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_3 = _mm_mul_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), scale_mask_inv);
-                    X_4 = _mm_mul_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_5 = _mm_mul_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), scale_mask_inv);
-                    X_6 = _mm_mul_pd(_mm_set_pd(X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_7 = _mm_mul_pd(_mm_set_pd(X[(incX * 15)], X[(incX * 14)]), scale_mask_inv);
-                    X_8 = _mm_mul_pd(_mm_set_pd(X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_9 = _mm_mul_pd(_mm_set_pd(X[(incX * 19)], X[(incX * 18)]), scale_mask_inv);
-                    X_10 = _mm_mul_pd(_mm_set_pd(X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_11 = _mm_mul_pd(_mm_set_pd(X[(incX * 23)], X[(incX * 22)]), scale_mask_inv);
-                    X_12 = _mm_mul_pd(_mm_set_pd(X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_13 = _mm_mul_pd(_mm_set_pd(X[(incX * 27)], X[(incX * 26)]), scale_mask_inv);
+                  for(i = 0; i + 28 <= N_block; i += 28, X += ((ptrdiff_t)incX * 28)){
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_3 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), scale_mask_inv);
+                    X_4 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_5 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), scale_mask_inv);
+                    X_6 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_7 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]), scale_mask_inv);
+                    X_8 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_9 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]), scale_mask_inv);
+                    X_10 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_11 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]), scale_mask_inv);
+                    X_12 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_13 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -4154,14 +4154,14 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_13, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_3 = _mm_mul_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), scale_mask_inv);
-                    X_4 = _mm_mul_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_5 = _mm_mul_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), scale_mask_inv);
-                    X_6 = _mm_mul_pd(_mm_set_pd(X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_7 = _mm_mul_pd(_mm_set_pd(X[(incX * 15)], X[(incX * 14)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_3 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), scale_mask_inv);
+                    X_4 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_5 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), scale_mask_inv);
+                    X_6 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_7 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -4267,13 +4267,13 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_7, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_3 = _mm_mul_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_3 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -4327,11 +4327,11 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
 
@@ -4359,10 +4359,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
                     s_0 = s_buffer[0];
@@ -4378,7 +4378,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_mul_pd(_mm_set_pd(0, X[0]), scale_mask_inv);
@@ -4397,24 +4397,24 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_3 = _mm_mul_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), scale_mask_inv);
-                    X_4 = _mm_mul_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_5 = _mm_mul_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), scale_mask_inv);
-                    X_6 = _mm_mul_pd(_mm_set_pd(X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_7 = _mm_mul_pd(_mm_set_pd(X[(incX * 15)], X[(incX * 14)]), scale_mask_inv);
-                    X_8 = _mm_mul_pd(_mm_set_pd(X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_9 = _mm_mul_pd(_mm_set_pd(X[(incX * 19)], X[(incX * 18)]), scale_mask_inv);
-                    X_10 = _mm_mul_pd(_mm_set_pd(X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_11 = _mm_mul_pd(_mm_set_pd(X[(incX * 23)], X[(incX * 22)]), scale_mask_inv);
-                    X_12 = _mm_mul_pd(_mm_set_pd(X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_13 = _mm_mul_pd(_mm_set_pd(X[(incX * 27)], X[(incX * 26)]), scale_mask_inv);
+                  for(i = 0; i + 28 <= N_block; i += 28, X += ((ptrdiff_t)incX * 28)){
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_3 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), scale_mask_inv);
+                    X_4 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_5 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), scale_mask_inv);
+                    X_6 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_7 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]), scale_mask_inv);
+                    X_8 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_9 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]), scale_mask_inv);
+                    X_10 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_11 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]), scale_mask_inv);
+                    X_12 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_13 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -4530,14 +4530,14 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_13, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_3 = _mm_mul_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), scale_mask_inv);
-                    X_4 = _mm_mul_pd(_mm_set_pd(X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_5 = _mm_mul_pd(_mm_set_pd(X[(incX * 11)], X[(incX * 10)]), scale_mask_inv);
-                    X_6 = _mm_mul_pd(_mm_set_pd(X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_7 = _mm_mul_pd(_mm_set_pd(X[(incX * 15)], X[(incX * 14)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_3 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), scale_mask_inv);
+                    X_4 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_5 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]), scale_mask_inv);
+                    X_6 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_7 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -4603,13 +4603,13 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_7, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
-                    X_2 = _mm_mul_pd(_mm_set_pd(X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_3 = _mm_mul_pd(_mm_set_pd(X[(incX * 7)], X[(incX * 6)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
+                    X_2 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_3 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
                     X_2 = _mm_mul_pd(X_2, X_2);
@@ -4643,11 +4643,11 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_pd(_mm_set_pd(X[(incX * 3)], X[(incX * 2)]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_pd(_mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
                     X_1 = _mm_mul_pd(X_1, X_1);
 
@@ -4665,10 +4665,10 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_mul_pd(_mm_set_pd(X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_pd(_mm_set_pd(X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_pd(X_0, X_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -4679,7 +4679,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_mul_pd(_mm_set_pd(0, X[0]), scale_mask_inv);
@@ -4693,17 +4693,17 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm_sub_pd(s_buffer[(j * 2)], _mm_set_pd(priY[(incpriY * j)], 0));
-                cons_tmp = _mm_load1_pd(priY + (incpriY * j));
+                s_buffer[(j * 2)] = _mm_sub_pd(s_buffer[(j * 2)], _mm_set_pd(priY[((ptrdiff_t)incpriY * j)], 0));
+                cons_tmp = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * j));
                 s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_sub_pd(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm_store_pd(cons_buffer_tmp, s_buffer[(j * 2)]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -4732,8 +4732,8 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               double s_2_0;
 
               s_0_0 = priY[0];
-              s_1_0 = priY[incpriY];
-              s_2_0 = priY[(incpriY * 2)];
+              s_1_0 = priY[(ptrdiff_t)incpriY];
+              s_2_0 = priY[((ptrdiff_t)incpriY * 2)];
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -4785,7 +4785,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4806,7 +4806,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_2_0 = s_2_0 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4830,8 +4830,8 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               }
 
               priY[0] = s_0_0;
-              priY[incpriY] = s_1_0;
-              priY[(incpriY * 2)] = s_2_0;
+              priY[(ptrdiff_t)incpriY] = s_1_0;
+              priY[((ptrdiff_t)incpriY * 2)] = s_2_0;
 
             }
             break;
@@ -4846,7 +4846,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               double s_buffer[binned_DBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = priY[(incpriY * j)];
+                s_buffer[j] = priY[((ptrdiff_t)incpriY * j)];
               }
 
               if(incX == 1){
@@ -4900,7 +4900,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4925,7 +4925,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
                     s_buffer[j] = s_buffer[j] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -4946,7 +4946,7 @@ double binnedBLAS_dmdssq(const int fold, const int N, const double *X, const int
               }
 
               for(j = 0; j < fold; j += 1){
-                priY[(incpriY * j)] = s_buffer[j];
+                priY[((ptrdiff_t)incpriY * j)] = s_buffer[j];
               }
 
             }
diff --git a/src/binnedBLAS/dmdsum.ccog b/src/binnedBLAS/dmdsum.ccog
index fc49acb..a9ddcca 100644
--- a/src/binnedBLAS/dmdsum.ccog
+++ b/src/binnedBLAS/dmdsum.ccog
@@ -117,7 +117,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               __m256d s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_sd(priY);
-              s_1_0 = s_1_1 = _mm256_broadcast_sd(priY + incpriY);
+              s_1_0 = s_1_1 = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -359,15 +359,15 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                    X_4 = _mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_5 = _mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                    X_6 = _mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_7 = _mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_4 = _mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_5 = _mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                    X_6 = _mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_7 = _mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -411,10 +411,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -436,11 +436,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_3 = _mm256_add_pd(_mm256_add_pd(X_3, q_1), q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -452,38 +452,38 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm256_add_pd(_mm256_add_pd(X_1, q_1), q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_mul_pd(_mm256_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm256_add_pd(_mm256_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                    X_4 = _mm256_set_pd(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_5 = _mm256_set_pd(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                    X_6 = _mm256_set_pd(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_7 = _mm256_set_pd(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_4 = _mm256_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_5 = _mm256_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                    X_6 = _mm256_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_7 = _mm256_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -527,10 +527,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -552,11 +552,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_3 = _mm256_add_pd(X_3, q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -568,27 +568,27 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm256_add_pd(X_1, q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -598,11 +598,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm256_add_pd(s_0_0, _mm256_sub_pd(s_0_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + incpriY);
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -621,8 +621,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               __m256d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_sd(priY);
-              s_1_0 = s_1_1 = _mm256_broadcast_sd(priY + incpriY);
-              s_2_0 = s_2_1 = _mm256_broadcast_sd(priY + (incpriY * 2));
+              s_1_0 = s_1_1 = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -824,11 +824,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -868,8 +868,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -889,10 +889,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm256_add_pd(X_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -903,10 +903,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -917,14 +917,14 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -964,8 +964,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -985,10 +985,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm256_add_pd(X_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
@@ -999,10 +999,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
@@ -1013,7 +1013,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -1023,16 +1023,16 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm256_add_pd(s_0_0, _mm256_sub_pd(s_0_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + incpriY);
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1052,9 +1052,9 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               __m256d s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_sd(priY);
-              s_1_0 = s_1_1 = _mm256_broadcast_sd(priY + incpriY);
-              s_2_0 = s_2_1 = _mm256_broadcast_sd(priY + (incpriY * 2));
-              s_3_0 = s_3_1 = _mm256_broadcast_sd(priY + (incpriY * 3));
+              s_1_0 = s_1_1 = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = s_3_1 = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -1320,11 +1320,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1380,8 +1380,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1409,10 +1409,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm256_add_pd(X_1, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -1427,10 +1427,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -1445,14 +1445,14 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1508,8 +1508,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1537,10 +1537,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm256_add_pd(X_1, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
@@ -1555,10 +1555,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(X_0, blp_mask_tmp));
@@ -1573,7 +1573,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     X_0 = _mm256_add_pd(X_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -1583,21 +1583,21 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm256_add_pd(s_0_0, _mm256_sub_pd(s_0_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + incpriY);
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], 0));
-              cons_tmp = _mm256_broadcast_sd(priY + (incpriY * 3));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], 0));
+              cons_tmp = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * 3));
               s_3_0 = _mm256_add_pd(s_3_0, _mm256_sub_pd(s_3_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1615,7 +1615,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               __m256d s_buffer[binned_DBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_broadcast_sd(priY + (incpriY * j));
+                s_buffer[j] = _mm256_broadcast_sd(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -1842,11 +1842,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm256_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm256_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_pd(s_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -1902,8 +1902,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_pd(s_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -1931,10 +1931,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_pd(s_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -1949,10 +1949,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                       X_0 = _mm256_add_pd(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_pd(s_0, _mm256_or_pd(_mm256_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -1967,14 +1967,14 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                       X_0 = _mm256_add_pd(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm256_set_pd(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm256_set_pd(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm256_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm256_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -2010,8 +2010,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_pd(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -2029,10 +2029,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                       X_1 = _mm256_add_pd(X_1, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm256_set_pd(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -2042,10 +2042,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                       X_0 = _mm256_add_pd(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_pd(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -2055,15 +2055,15 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                       X_0 = _mm256_add_pd(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_sub_pd(s_buffer[j], _mm256_set_pd(priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], 0));
+                s_buffer[j] = _mm256_sub_pd(s_buffer[j], _mm256_set_pd(priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], 0));
                 _mm256_store_pd(cons_buffer_tmp, s_buffer[j]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -2099,7 +2099,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               __m128d s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm_load1_pd(priY);
-              s_1_0 = s_1_1 = _mm_load1_pd(priY + incpriY);
+              s_1_0 = s_1_1 = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -2493,19 +2493,19 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24)){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                    X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                    X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                    X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                    X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                    X_8 = _mm_set_pd(X[(incX * 17)], X[(incX * 16)]);
-                    X_9 = _mm_set_pd(X[(incX * 19)], X[(incX * 18)]);
-                    X_10 = _mm_set_pd(X[(incX * 21)], X[(incX * 20)]);
-                    X_11 = _mm_set_pd(X[(incX * 23)], X[(incX * 22)]);
+                  for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24)){
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                    X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                    X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                    X_8 = _mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_9 = _mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]);
+                    X_10 = _mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                    X_11 = _mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2569,14 +2569,14 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_11, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                    X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                    X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                    X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                    X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                    X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                    X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2618,13 +2618,13 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_7 = _mm_add_pd(_mm_add_pd(X_7, q_1), q_1);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_6, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_7, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2646,11 +2646,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_3 = _mm_add_pd(_mm_add_pd(X_3, q_1), q_1);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_2, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2662,17 +2662,17 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm_add_pd(_mm_add_pd(X_1, q_1), q_1);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(_mm_mul_pd(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_set_pd(0, X[0]);
@@ -2682,22 +2682,22 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm_mul_pd(_mm_sub_pd(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_pd(_mm_add_pd(X_0, q_0), q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24)){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                    X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                    X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                    X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                    X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                    X_8 = _mm_set_pd(X[(incX * 17)], X[(incX * 16)]);
-                    X_9 = _mm_set_pd(X[(incX * 19)], X[(incX * 18)]);
-                    X_10 = _mm_set_pd(X[(incX * 21)], X[(incX * 20)]);
-                    X_11 = _mm_set_pd(X[(incX * 23)], X[(incX * 22)]);
+                  for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24)){
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                    X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                    X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                    X_8 = _mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_9 = _mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]);
+                    X_10 = _mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                    X_11 = _mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2761,14 +2761,14 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_11, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                    X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                    X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                    X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                    X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                    X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                    X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2810,13 +2810,13 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_7 = _mm_add_pd(X_7, q_1);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_6, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_7, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2838,11 +2838,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_3 = _mm_add_pd(X_3, q_1);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_2, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2854,17 +2854,17 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm_add_pd(X_1, q_1);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(X_0, blp_mask_tmp));
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_set_pd(0, X[0]);
@@ -2874,7 +2874,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -2884,11 +2884,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm_add_pd(s_0_0, _mm_sub_pd(s_0_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[incpriY], 0));
-              cons_tmp = _mm_load1_pd(priY + incpriY);
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2907,8 +2907,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               __m128d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm_load1_pd(priY);
-              s_1_0 = s_1_1 = _mm_load1_pd(priY + incpriY);
-              s_2_0 = s_2_1 = _mm_load1_pd(priY + (incpriY * 2));
+              s_1_0 = s_1_1 = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -3238,13 +3238,13 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                    X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                    X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
+                  for(i = 0; i + 12 <= N_block; i += 12, X += ((ptrdiff_t)incX * 12)){
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                    X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3302,10 +3302,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_5, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3343,11 +3343,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_3 = _mm_add_pd(X_3, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3367,10 +3367,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm_add_pd(X_1, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(_mm_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -3381,7 +3381,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_set_pd(0, X[0]);
@@ -3395,16 +3395,16 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                    X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                    X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
+                  for(i = 0; i + 12 <= N_block; i += 12, X += ((ptrdiff_t)incX * 12)){
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                    X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3462,10 +3462,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_5, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3503,11 +3503,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_3 = _mm_add_pd(X_3, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_2, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3527,10 +3527,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm_add_pd(X_1, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(X_0, blp_mask_tmp));
@@ -3541,7 +3541,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_set_pd(0, X[0]);
@@ -3555,7 +3555,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -3565,16 +3565,16 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm_add_pd(s_0_0, _mm_sub_pd(s_0_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[incpriY], 0));
-              cons_tmp = _mm_load1_pd(priY + incpriY);
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[(incpriY * 2)], 0));
-              cons_tmp = _mm_load1_pd(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3594,9 +3594,9 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               __m128d s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = _mm_load1_pd(priY);
-              s_1_0 = s_1_1 = _mm_load1_pd(priY + incpriY);
-              s_2_0 = s_2_1 = _mm_load1_pd(priY + (incpriY * 2));
-              s_3_0 = s_3_1 = _mm_load1_pd(priY + (incpriY * 3));
+              s_1_0 = s_1_1 = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = s_3_1 = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -4550,23 +4550,23 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                    X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                    X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                    X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                    X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                    X_8 = _mm_set_pd(X[(incX * 17)], X[(incX * 16)]);
-                    X_9 = _mm_set_pd(X[(incX * 19)], X[(incX * 18)]);
-                    X_10 = _mm_set_pd(X[(incX * 21)], X[(incX * 20)]);
-                    X_11 = _mm_set_pd(X[(incX * 23)], X[(incX * 22)]);
-                    X_12 = _mm_set_pd(X[(incX * 25)], X[(incX * 24)]);
-                    X_13 = _mm_set_pd(X[(incX * 27)], X[(incX * 26)]);
-                    X_14 = _mm_set_pd(X[(incX * 29)], X[(incX * 28)]);
-                    X_15 = _mm_set_pd(X[(incX * 31)], X[(incX * 30)]);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                    X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                    X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                    X_8 = _mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_9 = _mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]);
+                    X_10 = _mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                    X_11 = _mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]);
+                    X_12 = _mm_set_pd(X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_13 = _mm_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)]);
+                    X_14 = _mm_set_pd(X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
+                    X_15 = _mm_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4778,14 +4778,14 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                    X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                    X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                    X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                    X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                    X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                    X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4891,13 +4891,13 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_7 = _mm_add_pd(X_7, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_6, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4951,11 +4951,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_3 = _mm_add_pd(X_3, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_2, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4983,10 +4983,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm_add_pd(X_1, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(_mm_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -5001,7 +5001,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_set_pd(0, X[0]);
@@ -5019,26 +5019,26 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                    X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                    X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                    X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                    X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
-                    X_8 = _mm_set_pd(X[(incX * 17)], X[(incX * 16)]);
-                    X_9 = _mm_set_pd(X[(incX * 19)], X[(incX * 18)]);
-                    X_10 = _mm_set_pd(X[(incX * 21)], X[(incX * 20)]);
-                    X_11 = _mm_set_pd(X[(incX * 23)], X[(incX * 22)]);
-                    X_12 = _mm_set_pd(X[(incX * 25)], X[(incX * 24)]);
-                    X_13 = _mm_set_pd(X[(incX * 27)], X[(incX * 26)]);
-                    X_14 = _mm_set_pd(X[(incX * 29)], X[(incX * 28)]);
-                    X_15 = _mm_set_pd(X[(incX * 31)], X[(incX * 30)]);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                    X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                    X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
+                    X_8 = _mm_set_pd(X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_9 = _mm_set_pd(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)]);
+                    X_10 = _mm_set_pd(X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                    X_11 = _mm_set_pd(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)]);
+                    X_12 = _mm_set_pd(X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_13 = _mm_set_pd(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)]);
+                    X_14 = _mm_set_pd(X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
+                    X_15 = _mm_set_pd(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5250,14 +5250,14 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_15, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
-                    X_4 = _mm_set_pd(X[(incX * 9)], X[(incX * 8)]);
-                    X_5 = _mm_set_pd(X[(incX * 11)], X[(incX * 10)]);
-                    X_6 = _mm_set_pd(X[(incX * 13)], X[(incX * 12)]);
-                    X_7 = _mm_set_pd(X[(incX * 15)], X[(incX * 14)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
+                    X_4 = _mm_set_pd(X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_5 = _mm_set_pd(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)]);
+                    X_6 = _mm_set_pd(X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_7 = _mm_set_pd(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5363,13 +5363,13 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_7 = _mm_add_pd(X_7, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_6, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_7, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5423,11 +5423,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_3 = _mm_add_pd(X_3, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_2, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_3, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5455,10 +5455,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     X_1 = _mm_add_pd(X_1, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_pd(s_0_0, _mm_or_pd(X_0, blp_mask_tmp));
@@ -5473,7 +5473,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_set_pd(0, X[0]);
@@ -5491,7 +5491,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     X_0 = _mm_add_pd(X_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -5501,21 +5501,21 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               s_0_0 = _mm_add_pd(s_0_0, _mm_sub_pd(s_0_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[incpriY], 0));
-              cons_tmp = _mm_load1_pd(priY + incpriY);
+              s_1_0 = _mm_sub_pd(s_1_0, _mm_set_pd(priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_pd(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[(incpriY * 2)], 0));
-              cons_tmp = _mm_load1_pd(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_2_0 = _mm_sub_pd(s_2_0, _mm_set_pd(priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
-              s_3_0 = _mm_sub_pd(s_3_0, _mm_set_pd(priY[(incpriY * 3)], 0));
-              cons_tmp = _mm_load1_pd(priY + (incpriY * 3));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              s_3_0 = _mm_sub_pd(s_3_0, _mm_set_pd(priY[((ptrdiff_t)incpriY * 3)], 0));
+              cons_tmp = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * 3));
               s_3_0 = _mm_add_pd(s_3_0, _mm_sub_pd(s_3_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -5533,7 +5533,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               __m128d s_buffer[(binned_DBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm_load1_pd(priY + (incpriY * j));
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -5744,11 +5744,11 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = _mm_set1_pd(binned_DMCOMPRESSION);
                   expansion_0 = _mm_set1_pd(binned_DMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                  for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8)){
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -5798,8 +5798,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -5825,10 +5825,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm_add_pd(s_0, _mm_or_pd(_mm_mul_pd(X_0, compression_0), blp_mask_tmp));
@@ -5843,7 +5843,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_set_pd(0, X[0]);
@@ -5861,14 +5861,14 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
-                    X_2 = _mm_set_pd(X[(incX * 5)], X[(incX * 4)]);
-                    X_3 = _mm_set_pd(X[(incX * 7)], X[(incX * 6)]);
+                  for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8)){
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
+                    X_2 = _mm_set_pd(X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_3 = _mm_set_pd(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -5898,8 +5898,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[((j * 4) + 3)] = _mm_add_pd(s_buffer[((j * 4) + 3)], _mm_or_pd(X_3, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
-                    X_1 = _mm_set_pd(X[(incX * 3)], X[(incX * 2)]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_pd(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -5915,10 +5915,10 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(X_1, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 2 <= N_block){
-                    X_0 = _mm_set_pd(X[incX], X[0]);
+                    X_0 = _mm_set_pd(X[(ptrdiff_t)incX], X[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -5928,7 +5928,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                    i += 2, X += (incX * 2);
+                    i += 2, X += ((ptrdiff_t)incX * 2);
                   }
                   if(i < N_block){
                     X_0 = _mm_set_pd(0, X[0]);
@@ -5941,19 +5941,19 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                       X_0 = _mm_add_pd(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = _mm_sub_pd(s_buffer[(j * 4)], _mm_set_pd(priY[(incpriY * j)], 0));
-                cons_tmp = _mm_load1_pd(priY + (incpriY * j));
+                s_buffer[(j * 4)] = _mm_sub_pd(s_buffer[(j * 4)], _mm_set_pd(priY[((ptrdiff_t)incpriY * j)], 0));
+                cons_tmp = _mm_load1_pd(priY + ((ptrdiff_t)incpriY * j));
                 s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_sub_pd(s_buffer[((j * 4) + 1)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_sub_pd(s_buffer[((j * 4) + 2)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_sub_pd(s_buffer[((j * 4) + 3)], cons_tmp));
                 _mm_store_pd(cons_buffer_tmp, s_buffer[(j * 4)]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -5981,8 +5981,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               double s_2_0;
 
               s_0_0 = priY[0];
-              s_1_0 = priY[incpriY];
-              s_2_0 = priY[(incpriY * 2)];
+              s_1_0 = priY[(ptrdiff_t)incpriY];
+              s_2_0 = priY[((ptrdiff_t)incpriY * 2)];
 
               if(incX == 1){
                 if(binned_dmindex0(priY)){
@@ -6032,7 +6032,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -6052,7 +6052,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_2_0 = s_2_0 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -6075,8 +6075,8 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               }
 
               priY[0] = s_0_0;
-              priY[incpriY] = s_1_0;
-              priY[(incpriY * 2)] = s_2_0;
+              priY[(ptrdiff_t)incpriY] = s_1_0;
+              priY[((ptrdiff_t)incpriY * 2)] = s_2_0;
 
             }
             break;
@@ -6091,7 +6091,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               double s_buffer[binned_DBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = priY[(incpriY * j)];
+                s_buffer[j] = priY[((ptrdiff_t)incpriY * j)];
               }
 
               if(incX == 1){
@@ -6143,7 +6143,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                 if(binned_dmindex0(priY)){
                   compression_0 = binned_DMCOMPRESSION;
                   expansion_0 = binned_DMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = X[0];
 
                     s_0 = s_buffer[0];
@@ -6167,7 +6167,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
                     s_buffer[j] = s_buffer[j] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = X[0];
 
                     for(j = 0; j < fold - 1; j++){
@@ -6187,7 +6187,7 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
               }
 
               for(j = 0; j < fold; j += 1){
-                priY[(incpriY * j)] = s_buffer[j];
+                priY[((ptrdiff_t)incpriY * j)] = s_buffer[j];
               }
 
             }
diff --git a/src/binnedBLAS/dmzasum.ccog b/src/binnedBLAS/dmzasum.ccog
index f1e7af0..878dcb5 100644
--- a/src/binnedBLAS/dmzasum.ccog
+++ b/src/binnedBLAS/dmzasum.ccog
@@ -554,19 +554,19 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
-                    x_8 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 34) + 1)], ((double*)x)[(incX * 34)], ((double*)x)[((incX * 32) + 1)], ((double*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_9 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 38) + 1)], ((double*)x)[(incX * 38)], ((double*)x)[((incX * 36) + 1)], ((double*)x)[(incX * 36)]), abs_mask_tmp);
-                    x_10 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 42) + 1)], ((double*)x)[(incX * 42)], ((double*)x)[((incX * 40) + 1)], ((double*)x)[(incX * 40)]), abs_mask_tmp);
-                    x_11 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 46) + 1)], ((double*)x)[(incX * 46)], ((double*)x)[((incX * 44) + 1)], ((double*)x)[(incX * 44)]), abs_mask_tmp);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    x_8 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 34) + 1)], ((double*)x)[((ptrdiff_t)incX * 34)], ((double*)x)[(((ptrdiff_t)incX * 32) + 1)], ((double*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_9 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 38) + 1)], ((double*)x)[((ptrdiff_t)incX * 38)], ((double*)x)[(((ptrdiff_t)incX * 36) + 1)], ((double*)x)[((ptrdiff_t)incX * 36)]), abs_mask_tmp);
+                    x_10 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 42) + 1)], ((double*)x)[((ptrdiff_t)incX * 42)], ((double*)x)[(((ptrdiff_t)incX * 40) + 1)], ((double*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    x_11 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 46) + 1)], ((double*)x)[((ptrdiff_t)incX * 46)], ((double*)x)[(((ptrdiff_t)incX * 44) + 1)], ((double*)x)[((ptrdiff_t)incX * 44)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -630,14 +630,14 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -679,13 +679,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_7 = _mm256_add_pd(_mm256_add_pd(x_7, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -707,11 +707,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm256_add_pd(_mm256_add_pd(x_3, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -723,17 +723,17 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(x_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(_mm256_add_pd(x_0, _mm256_mul_pd(q_0, expansion_0)), _mm256_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_and_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
@@ -743,22 +743,22 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(_mm256_add_pd(x_0, _mm256_mul_pd(q_0, expansion_0)), _mm256_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
-                    x_8 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 34) + 1)], ((double*)x)[(incX * 34)], ((double*)x)[((incX * 32) + 1)], ((double*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_9 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 38) + 1)], ((double*)x)[(incX * 38)], ((double*)x)[((incX * 36) + 1)], ((double*)x)[(incX * 36)]), abs_mask_tmp);
-                    x_10 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 42) + 1)], ((double*)x)[(incX * 42)], ((double*)x)[((incX * 40) + 1)], ((double*)x)[(incX * 40)]), abs_mask_tmp);
-                    x_11 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 46) + 1)], ((double*)x)[(incX * 46)], ((double*)x)[((incX * 44) + 1)], ((double*)x)[(incX * 44)]), abs_mask_tmp);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    x_8 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 34) + 1)], ((double*)x)[((ptrdiff_t)incX * 34)], ((double*)x)[(((ptrdiff_t)incX * 32) + 1)], ((double*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_9 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 38) + 1)], ((double*)x)[((ptrdiff_t)incX * 38)], ((double*)x)[(((ptrdiff_t)incX * 36) + 1)], ((double*)x)[((ptrdiff_t)incX * 36)]), abs_mask_tmp);
+                    x_10 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 42) + 1)], ((double*)x)[((ptrdiff_t)incX * 42)], ((double*)x)[(((ptrdiff_t)incX * 40) + 1)], ((double*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    x_11 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 46) + 1)], ((double*)x)[((ptrdiff_t)incX * 46)], ((double*)x)[(((ptrdiff_t)incX * 44) + 1)], ((double*)x)[((ptrdiff_t)incX * 44)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -822,14 +822,14 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -871,13 +871,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_7 = _mm256_add_pd(x_7, q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -899,11 +899,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm256_add_pd(x_3, q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -915,17 +915,17 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_and_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
@@ -935,7 +935,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -1368,15 +1368,15 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1452,10 +1452,10 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1493,11 +1493,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm256_add_pd(x_3, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1517,10 +1517,10 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(x_0, compression_0), blp_mask_tmp));
@@ -1531,7 +1531,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_and_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
@@ -1545,18 +1545,18 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1632,10 +1632,10 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1673,11 +1673,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm256_add_pd(x_3, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1697,10 +1697,10 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(x_0, blp_mask_tmp));
@@ -1711,7 +1711,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_and_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
@@ -1725,7 +1725,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -2294,15 +2294,15 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2410,10 +2410,10 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2467,11 +2467,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm256_add_pd(x_3, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2499,10 +2499,10 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(x_0, compression_0), blp_mask_tmp));
@@ -2517,7 +2517,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_and_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
@@ -2535,18 +2535,18 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2654,10 +2654,10 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2711,11 +2711,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm256_add_pd(x_3, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2743,10 +2743,10 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(x_0, blp_mask_tmp));
@@ -2761,7 +2761,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_and_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
@@ -2779,7 +2779,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -3547,21 +3547,21 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
-                    x_8 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 34) + 1)], ((double*)x)[(incX * 34)], ((double*)x)[((incX * 32) + 1)], ((double*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_9 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 38) + 1)], ((double*)x)[(incX * 38)], ((double*)x)[((incX * 36) + 1)], ((double*)x)[(incX * 36)]), abs_mask_tmp);
-                    x_10 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 42) + 1)], ((double*)x)[(incX * 42)], ((double*)x)[((incX * 40) + 1)], ((double*)x)[(incX * 40)]), abs_mask_tmp);
-                    x_11 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 46) + 1)], ((double*)x)[(incX * 46)], ((double*)x)[((incX * 44) + 1)], ((double*)x)[(incX * 44)]), abs_mask_tmp);
-                    x_12 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 50) + 1)], ((double*)x)[(incX * 50)], ((double*)x)[((incX * 48) + 1)], ((double*)x)[(incX * 48)]), abs_mask_tmp);
-                    x_13 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 54) + 1)], ((double*)x)[(incX * 54)], ((double*)x)[((incX * 52) + 1)], ((double*)x)[(incX * 52)]), abs_mask_tmp);
+                  for(i = 0; i + 28 <= N_block; i += 28, x += ((ptrdiff_t)incX * 56)){
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    x_8 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 34) + 1)], ((double*)x)[((ptrdiff_t)incX * 34)], ((double*)x)[(((ptrdiff_t)incX * 32) + 1)], ((double*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_9 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 38) + 1)], ((double*)x)[((ptrdiff_t)incX * 38)], ((double*)x)[(((ptrdiff_t)incX * 36) + 1)], ((double*)x)[((ptrdiff_t)incX * 36)]), abs_mask_tmp);
+                    x_10 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 42) + 1)], ((double*)x)[((ptrdiff_t)incX * 42)], ((double*)x)[(((ptrdiff_t)incX * 40) + 1)], ((double*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    x_11 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 46) + 1)], ((double*)x)[((ptrdiff_t)incX * 46)], ((double*)x)[(((ptrdiff_t)incX * 44) + 1)], ((double*)x)[((ptrdiff_t)incX * 44)]), abs_mask_tmp);
+                    x_12 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 50) + 1)], ((double*)x)[((ptrdiff_t)incX * 50)], ((double*)x)[(((ptrdiff_t)incX * 48) + 1)], ((double*)x)[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+                    x_13 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 54) + 1)], ((double*)x)[((ptrdiff_t)incX * 54)], ((double*)x)[(((ptrdiff_t)incX * 52) + 1)], ((double*)x)[((ptrdiff_t)incX * 52)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -3733,14 +3733,14 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_13, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -3838,13 +3838,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -3894,11 +3894,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -3924,10 +3924,10 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_pd(s_0, _mm256_or_pd(_mm256_mul_pd(x_0, compression_0), blp_mask_tmp));
@@ -3943,7 +3943,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_and_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
@@ -3962,24 +3962,24 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
-                    x_8 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 34) + 1)], ((double*)x)[(incX * 34)], ((double*)x)[((incX * 32) + 1)], ((double*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_9 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 38) + 1)], ((double*)x)[(incX * 38)], ((double*)x)[((incX * 36) + 1)], ((double*)x)[(incX * 36)]), abs_mask_tmp);
-                    x_10 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 42) + 1)], ((double*)x)[(incX * 42)], ((double*)x)[((incX * 40) + 1)], ((double*)x)[(incX * 40)]), abs_mask_tmp);
-                    x_11 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 46) + 1)], ((double*)x)[(incX * 46)], ((double*)x)[((incX * 44) + 1)], ((double*)x)[(incX * 44)]), abs_mask_tmp);
-                    x_12 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 50) + 1)], ((double*)x)[(incX * 50)], ((double*)x)[((incX * 48) + 1)], ((double*)x)[(incX * 48)]), abs_mask_tmp);
-                    x_13 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 54) + 1)], ((double*)x)[(incX * 54)], ((double*)x)[((incX * 52) + 1)], ((double*)x)[(incX * 52)]), abs_mask_tmp);
+                  for(i = 0; i + 28 <= N_block; i += 28, x += ((ptrdiff_t)incX * 56)){
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    x_8 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 34) + 1)], ((double*)x)[((ptrdiff_t)incX * 34)], ((double*)x)[(((ptrdiff_t)incX * 32) + 1)], ((double*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_9 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 38) + 1)], ((double*)x)[((ptrdiff_t)incX * 38)], ((double*)x)[(((ptrdiff_t)incX * 36) + 1)], ((double*)x)[((ptrdiff_t)incX * 36)]), abs_mask_tmp);
+                    x_10 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 42) + 1)], ((double*)x)[((ptrdiff_t)incX * 42)], ((double*)x)[(((ptrdiff_t)incX * 40) + 1)], ((double*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    x_11 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 46) + 1)], ((double*)x)[((ptrdiff_t)incX * 46)], ((double*)x)[(((ptrdiff_t)incX * 44) + 1)], ((double*)x)[((ptrdiff_t)incX * 44)]), abs_mask_tmp);
+                    x_12 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 50) + 1)], ((double*)x)[((ptrdiff_t)incX * 50)], ((double*)x)[(((ptrdiff_t)incX * 48) + 1)], ((double*)x)[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+                    x_13 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 54) + 1)], ((double*)x)[((ptrdiff_t)incX * 54)], ((double*)x)[(((ptrdiff_t)incX * 52) + 1)], ((double*)x)[((ptrdiff_t)incX * 52)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -4081,14 +4081,14 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_13, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -4146,13 +4146,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -4182,11 +4182,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -4202,10 +4202,10 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -4215,7 +4215,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_and_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
@@ -4228,7 +4228,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -5077,35 +5077,35 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
+                  for(i = 0; i + 28 <= N_block; i += 28, x += ((ptrdiff_t)incX * 56)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
-                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 16)), abs_mask_tmp);
-                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 18)), abs_mask_tmp);
-                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 20)), abs_mask_tmp);
-                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 22)), abs_mask_tmp);
-                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 24)), abs_mask_tmp);
-                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 26)), abs_mask_tmp);
-                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 28)), abs_mask_tmp);
-                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 30)), abs_mask_tmp);
-                    x_16 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 32)), abs_mask_tmp);
-                    x_17 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 34)), abs_mask_tmp);
-                    x_18 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 36)), abs_mask_tmp);
-                    x_19 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 38)), abs_mask_tmp);
-                    x_20 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 40)), abs_mask_tmp);
-                    x_21 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 42)), abs_mask_tmp);
-                    x_22 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 44)), abs_mask_tmp);
-                    x_23 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 46)), abs_mask_tmp);
-                    x_24 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 48)), abs_mask_tmp);
-                    x_25 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 50)), abs_mask_tmp);
-                    x_26 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 52)), abs_mask_tmp);
-                    x_27 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 54)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
+                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 16)), abs_mask_tmp);
+                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 18)), abs_mask_tmp);
+                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 20)), abs_mask_tmp);
+                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 22)), abs_mask_tmp);
+                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 24)), abs_mask_tmp);
+                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 26)), abs_mask_tmp);
+                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 28)), abs_mask_tmp);
+                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 30)), abs_mask_tmp);
+                    x_16 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 32)), abs_mask_tmp);
+                    x_17 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 34)), abs_mask_tmp);
+                    x_18 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 36)), abs_mask_tmp);
+                    x_19 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 38)), abs_mask_tmp);
+                    x_20 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 40)), abs_mask_tmp);
+                    x_21 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 42)), abs_mask_tmp);
+                    x_22 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 44)), abs_mask_tmp);
+                    x_23 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 46)), abs_mask_tmp);
+                    x_24 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 48)), abs_mask_tmp);
+                    x_25 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 50)), abs_mask_tmp);
+                    x_26 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 52)), abs_mask_tmp);
+                    x_27 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 54)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5250,21 +5250,21 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                   }
                   if(i + 16 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
-                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 16)), abs_mask_tmp);
-                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 18)), abs_mask_tmp);
-                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 20)), abs_mask_tmp);
-                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 22)), abs_mask_tmp);
-                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 24)), abs_mask_tmp);
-                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 26)), abs_mask_tmp);
-                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 28)), abs_mask_tmp);
-                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 30)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
+                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 16)), abs_mask_tmp);
+                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 18)), abs_mask_tmp);
+                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 20)), abs_mask_tmp);
+                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 22)), abs_mask_tmp);
+                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 24)), abs_mask_tmp);
+                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 26)), abs_mask_tmp);
+                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 28)), abs_mask_tmp);
+                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 30)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5346,17 +5346,17 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_13, blp_mask_tmp));
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(x_14, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_15, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5398,13 +5398,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(x_6, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_7, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5426,11 +5426,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(x_2, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5442,7 +5442,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_pd(_mm_add_pd(x_1, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
@@ -5452,38 +5452,38 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     x_0 = _mm_add_pd(_mm_add_pd(x_0, _mm_mul_pd(q_0, expansion_0)), _mm_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
+                  for(i = 0; i + 28 <= N_block; i += 28, x += ((ptrdiff_t)incX * 56)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
-                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 16)), abs_mask_tmp);
-                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 18)), abs_mask_tmp);
-                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 20)), abs_mask_tmp);
-                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 22)), abs_mask_tmp);
-                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 24)), abs_mask_tmp);
-                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 26)), abs_mask_tmp);
-                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 28)), abs_mask_tmp);
-                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 30)), abs_mask_tmp);
-                    x_16 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 32)), abs_mask_tmp);
-                    x_17 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 34)), abs_mask_tmp);
-                    x_18 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 36)), abs_mask_tmp);
-                    x_19 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 38)), abs_mask_tmp);
-                    x_20 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 40)), abs_mask_tmp);
-                    x_21 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 42)), abs_mask_tmp);
-                    x_22 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 44)), abs_mask_tmp);
-                    x_23 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 46)), abs_mask_tmp);
-                    x_24 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 48)), abs_mask_tmp);
-                    x_25 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 50)), abs_mask_tmp);
-                    x_26 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 52)), abs_mask_tmp);
-                    x_27 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 54)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
+                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 16)), abs_mask_tmp);
+                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 18)), abs_mask_tmp);
+                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 20)), abs_mask_tmp);
+                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 22)), abs_mask_tmp);
+                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 24)), abs_mask_tmp);
+                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 26)), abs_mask_tmp);
+                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 28)), abs_mask_tmp);
+                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 30)), abs_mask_tmp);
+                    x_16 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 32)), abs_mask_tmp);
+                    x_17 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 34)), abs_mask_tmp);
+                    x_18 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 36)), abs_mask_tmp);
+                    x_19 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 38)), abs_mask_tmp);
+                    x_20 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 40)), abs_mask_tmp);
+                    x_21 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 42)), abs_mask_tmp);
+                    x_22 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 44)), abs_mask_tmp);
+                    x_23 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 46)), abs_mask_tmp);
+                    x_24 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 48)), abs_mask_tmp);
+                    x_25 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 50)), abs_mask_tmp);
+                    x_26 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 52)), abs_mask_tmp);
+                    x_27 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 54)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5628,21 +5628,21 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                   }
                   if(i + 16 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
-                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 16)), abs_mask_tmp);
-                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 18)), abs_mask_tmp);
-                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 20)), abs_mask_tmp);
-                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 22)), abs_mask_tmp);
-                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 24)), abs_mask_tmp);
-                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 26)), abs_mask_tmp);
-                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 28)), abs_mask_tmp);
-                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 30)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
+                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 16)), abs_mask_tmp);
+                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 18)), abs_mask_tmp);
+                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 20)), abs_mask_tmp);
+                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 22)), abs_mask_tmp);
+                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 24)), abs_mask_tmp);
+                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 26)), abs_mask_tmp);
+                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 28)), abs_mask_tmp);
+                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 30)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5724,17 +5724,17 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_13, blp_mask_tmp));
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(x_14, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_15, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5776,13 +5776,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_5, blp_mask_tmp));
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(x_6, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_7, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5804,11 +5804,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
                     s_1_2 = _mm_add_pd(s_1_2, _mm_or_pd(x_2, blp_mask_tmp));
                     s_1_3 = _mm_add_pd(s_1_3, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5820,7 +5820,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_pd(x_1, q_1);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
@@ -5830,7 +5830,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -6485,19 +6485,19 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24)){
+                  for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
-                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 16)), abs_mask_tmp);
-                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 18)), abs_mask_tmp);
-                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 20)), abs_mask_tmp);
-                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 22)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
+                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 16)), abs_mask_tmp);
+                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 18)), abs_mask_tmp);
+                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 20)), abs_mask_tmp);
+                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 22)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6610,13 +6610,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                   }
                   if(i + 8 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6690,13 +6690,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_7 = _mm_add_pd(x_7, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_6, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_7, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6734,11 +6734,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_pd(x_3, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6758,7 +6758,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_pd(x_1, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
@@ -6772,22 +6772,22 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24)){
+                  for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
-                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 16)), abs_mask_tmp);
-                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 18)), abs_mask_tmp);
-                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 20)), abs_mask_tmp);
-                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 22)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
+                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 16)), abs_mask_tmp);
+                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 18)), abs_mask_tmp);
+                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 20)), abs_mask_tmp);
+                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 22)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6900,13 +6900,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                   }
                   if(i + 8 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6980,13 +6980,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_7 = _mm_add_pd(x_7, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_6, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_7, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -7024,11 +7024,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_pd(x_3, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -7048,7 +7048,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_pd(x_1, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
@@ -7062,7 +7062,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -8048,23 +8048,23 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
-                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 16)), abs_mask_tmp);
-                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 18)), abs_mask_tmp);
-                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 20)), abs_mask_tmp);
-                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 22)), abs_mask_tmp);
-                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 24)), abs_mask_tmp);
-                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 26)), abs_mask_tmp);
-                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 28)), abs_mask_tmp);
-                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 30)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
+                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 16)), abs_mask_tmp);
+                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 18)), abs_mask_tmp);
+                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 20)), abs_mask_tmp);
+                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 22)), abs_mask_tmp);
+                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 24)), abs_mask_tmp);
+                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 26)), abs_mask_tmp);
+                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 28)), abs_mask_tmp);
+                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 30)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -8277,13 +8277,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                   }
                   if(i + 8 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -8389,13 +8389,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_7 = _mm_add_pd(x_7, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_6, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_7, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -8449,11 +8449,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_pd(x_3, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -8481,7 +8481,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_pd(x_1, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
@@ -8499,26 +8499,26 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
-                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 16)), abs_mask_tmp);
-                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 18)), abs_mask_tmp);
-                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 20)), abs_mask_tmp);
-                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 22)), abs_mask_tmp);
-                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 24)), abs_mask_tmp);
-                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 26)), abs_mask_tmp);
-                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 28)), abs_mask_tmp);
-                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 30)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
+                    x_8 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 16)), abs_mask_tmp);
+                    x_9 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 18)), abs_mask_tmp);
+                    x_10 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 20)), abs_mask_tmp);
+                    x_11 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 22)), abs_mask_tmp);
+                    x_12 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 24)), abs_mask_tmp);
+                    x_13 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 26)), abs_mask_tmp);
+                    x_14 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 28)), abs_mask_tmp);
+                    x_15 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 30)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -8731,13 +8731,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                   }
                   if(i + 8 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
-                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), abs_mask_tmp);
-                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), abs_mask_tmp);
-                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+                    x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
+                    x_5 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), abs_mask_tmp);
+                    x_6 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), abs_mask_tmp);
+                    x_7 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -8843,13 +8843,13 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_7 = _mm_add_pd(x_7, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_6, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_7, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -8903,11 +8903,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_pd(x_3, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -8935,7 +8935,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_pd(x_1, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
@@ -8953,7 +8953,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -9207,11 +9207,11 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -9262,7 +9262,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -9290,7 +9290,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
@@ -9311,14 +9311,14 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8)){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+                    x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+                    x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -9349,7 +9349,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
+                    x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -9365,7 +9365,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 4) + 1)] = _mm_add_pd(s_buffer[((j * 4) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
@@ -9378,7 +9378,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_pd(s_buffer[(j * 4)], _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -9549,7 +9549,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
@@ -9585,7 +9585,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = s_2_1 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
@@ -9770,7 +9770,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
@@ -9812,7 +9812,7 @@ void binnedBLAS_dmzasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = fabs(((double*)x)[0]);
                     x_1 = fabs(((double*)x)[1]);
 
diff --git a/src/binnedBLAS/dmzssq.ccog b/src/binnedBLAS/dmzssq.ccog
index ed642e1..9b7ac64 100644
--- a/src/binnedBLAS/dmzssq.ccog
+++ b/src/binnedBLAS/dmzssq.ccog
@@ -413,13 +413,13 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24)){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), scale_mask_inv);
-                    x_5 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), scale_mask_inv);
+                  for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24)){
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_5 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
                     x_2 = _mm256_mul_pd(x_2, x_2);
@@ -459,10 +459,10 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_5, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
                     x_2 = _mm256_mul_pd(x_2, x_2);
@@ -488,11 +488,11 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_3 = _mm256_add_pd(_mm256_add_pd(x_3, _mm256_mul_pd(q_0, expansion_0)), _mm256_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
 
@@ -506,10 +506,10 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_0, expansion_0)), _mm256_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -517,7 +517,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(_mm256_add_pd(x_0, _mm256_mul_pd(q_0, expansion_0)), _mm256_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
@@ -528,16 +528,16 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(_mm256_add_pd(x_0, _mm256_mul_pd(q_0, expansion_0)), _mm256_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, x += (incX * 24)){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), scale_mask_inv);
-                    x_5 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), scale_mask_inv);
+                  for(i = 0; i + 12 <= N_block; i += 12, x += ((ptrdiff_t)incX * 24)){
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_5 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
                     x_2 = _mm256_mul_pd(x_2, x_2);
@@ -577,10 +577,10 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_5, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
                     x_2 = _mm256_mul_pd(x_2, x_2);
@@ -606,11 +606,11 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_3 = _mm256_add_pd(x_3, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
 
@@ -624,10 +624,10 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_1 = _mm256_add_pd(x_1, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -635,7 +635,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
@@ -646,7 +646,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -923,11 +923,11 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), scale_mask_inv);
+                  for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16)){
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
                     x_2 = _mm256_mul_pd(x_2, x_2);
@@ -971,8 +971,8 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(x_3, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
 
@@ -994,10 +994,10 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -1009,7 +1009,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
@@ -1024,14 +1024,14 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), scale_mask_inv);
+                  for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16)){
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
                     x_2 = _mm256_mul_pd(x_2, x_2);
@@ -1075,8 +1075,8 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_3 = _mm256_add_pd(s_2_3, _mm256_or_pd(x_3, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
 
@@ -1098,10 +1098,10 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -1113,7 +1113,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
@@ -1128,7 +1128,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -1359,9 +1359,9 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
+                  for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8)){
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
 
@@ -1393,7 +1393,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_1, blp_mask_tmp));
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -1409,7 +1409,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
@@ -1428,12 +1428,12 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), scale_mask_inv);
+                  for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8)){
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
                     x_1 = _mm256_mul_pd(x_1, x_1);
 
@@ -1465,7 +1465,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_1, blp_mask_tmp));
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -1481,7 +1481,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_mul_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
@@ -1500,7 +1500,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -1642,8 +1642,8 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                  for(i = 0; i + 2 <= N_block; i += 2, x += ((ptrdiff_t)incX * 4)){
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
                     s_0 = s_buffer[0];
@@ -1677,11 +1677,11 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                       x_0 = _mm256_add_pd(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
-                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
+                  for(i = 0; i + 2 <= N_block; i += 2, x += ((ptrdiff_t)incX * 4)){
+                    x_0 = _mm256_mul_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_pd(x_0, x_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -1705,7 +1705,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                       x_0 = _mm256_add_pd(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_pd(s_buffer[j], _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -1846,9 +1846,9 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
+                  for(i = 0; i + 2 <= N_block; i += 2, x += ((ptrdiff_t)incX * 4)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
 
@@ -1872,12 +1872,12 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     x_0 = _mm_add_pd(_mm_add_pd(x_0, _mm_mul_pd(q_0, expansion_0)), _mm_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
+                  for(i = 0; i + 2 <= N_block; i += 2, x += ((ptrdiff_t)incX * 4)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
 
@@ -1901,7 +1901,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -2128,10 +2128,10 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6)){
+                  for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -2166,7 +2166,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
 
@@ -2188,7 +2188,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     x_1 = _mm_add_pd(x_1, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
@@ -2203,13 +2203,13 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6)){
+                  for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -2244,7 +2244,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
 
@@ -2266,7 +2266,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     x_1 = _mm_add_pd(x_1, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
@@ -2281,7 +2281,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -2775,13 +2775,13 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
-                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), scale_mask_inv);
-                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), scale_mask_inv);
-                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
+                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), scale_mask_inv);
+                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), scale_mask_inv);
+                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -2870,9 +2870,9 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
-                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
+                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -2930,11 +2930,11 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     x_3 = _mm_add_pd(x_3, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
 
@@ -2964,7 +2964,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     x_1 = _mm_add_pd(x_1, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
@@ -2983,16 +2983,16 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
-                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), scale_mask_inv);
-                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), scale_mask_inv);
-                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
+                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), scale_mask_inv);
+                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), scale_mask_inv);
+                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -3081,9 +3081,9 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
-                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
+                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -3141,11 +3141,11 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     x_3 = _mm_add_pd(x_3, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
 
@@ -3175,7 +3175,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     x_1 = _mm_add_pd(x_1, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
@@ -3194,7 +3194,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -3976,21 +3976,21 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 14 <= N_block; i += 14, x += (incX * 28)){
+                  for(i = 0; i + 14 <= N_block; i += 14, x += ((ptrdiff_t)incX * 28)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
-                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), scale_mask_inv);
-                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), scale_mask_inv);
-                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), scale_mask_inv);
-                    x_6 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), scale_mask_inv);
-                    x_7 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), scale_mask_inv);
-                    x_8 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 16)), scale_mask_inv);
-                    x_9 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 18)), scale_mask_inv);
-                    x_10 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 20)), scale_mask_inv);
-                    x_11 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 22)), scale_mask_inv);
-                    x_12 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 24)), scale_mask_inv);
-                    x_13 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 26)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
+                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), scale_mask_inv);
+                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), scale_mask_inv);
+                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), scale_mask_inv);
+                    x_6 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), scale_mask_inv);
+                    x_7 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), scale_mask_inv);
+                    x_8 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 16)), scale_mask_inv);
+                    x_9 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 18)), scale_mask_inv);
+                    x_10 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 20)), scale_mask_inv);
+                    x_11 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 22)), scale_mask_inv);
+                    x_12 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 24)), scale_mask_inv);
+                    x_13 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 26)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -4177,13 +4177,13 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                   }
                   if(i + 8 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
-                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), scale_mask_inv);
-                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), scale_mask_inv);
-                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), scale_mask_inv);
-                    x_6 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), scale_mask_inv);
-                    x_7 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
+                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), scale_mask_inv);
+                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), scale_mask_inv);
+                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), scale_mask_inv);
+                    x_6 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), scale_mask_inv);
+                    x_7 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -4289,13 +4289,13 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_7, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
-                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
+                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -4349,11 +4349,11 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
 
@@ -4381,7 +4381,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
@@ -4401,24 +4401,24 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                       x_0 = _mm_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 14 <= N_block; i += 14, x += (incX * 28)){
+                  for(i = 0; i + 14 <= N_block; i += 14, x += ((ptrdiff_t)incX * 28)){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
-                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), scale_mask_inv);
-                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), scale_mask_inv);
-                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), scale_mask_inv);
-                    x_6 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), scale_mask_inv);
-                    x_7 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), scale_mask_inv);
-                    x_8 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 16)), scale_mask_inv);
-                    x_9 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 18)), scale_mask_inv);
-                    x_10 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 20)), scale_mask_inv);
-                    x_11 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 22)), scale_mask_inv);
-                    x_12 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 24)), scale_mask_inv);
-                    x_13 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 26)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
+                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), scale_mask_inv);
+                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), scale_mask_inv);
+                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), scale_mask_inv);
+                    x_6 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), scale_mask_inv);
+                    x_7 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), scale_mask_inv);
+                    x_8 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 16)), scale_mask_inv);
+                    x_9 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 18)), scale_mask_inv);
+                    x_10 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 20)), scale_mask_inv);
+                    x_11 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 22)), scale_mask_inv);
+                    x_12 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 24)), scale_mask_inv);
+                    x_13 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 26)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -4535,13 +4535,13 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                   }
                   if(i + 8 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
-                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), scale_mask_inv);
-                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), scale_mask_inv);
-                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 10)), scale_mask_inv);
-                    x_6 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 12)), scale_mask_inv);
-                    x_7 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 14)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
+                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), scale_mask_inv);
+                    x_4 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), scale_mask_inv);
+                    x_5 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10)), scale_mask_inv);
+                    x_6 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 12)), scale_mask_inv);
+                    x_7 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 14)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -4607,13 +4607,13 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_7, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
-                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), scale_mask_inv);
-                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
+                    x_2 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), scale_mask_inv);
+                    x_3 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
                     x_2 = _mm_mul_pd(x_2, x_2);
@@ -4647,11 +4647,11 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
-                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), scale_mask_inv);
+                    x_1 = _mm_mul_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), scale_mask_inv);
                     x_0 = _mm_mul_pd(x_0, x_0);
                     x_1 = _mm_mul_pd(x_1, x_1);
 
@@ -4669,7 +4669,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_pd(s_buffer[((j * 2) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_mul_pd(_mm_loadu_pd(((double*)x)), scale_mask_inv);
@@ -4683,7 +4683,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                       x_0 = _mm_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -4857,7 +4857,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -4895,7 +4895,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_2_1 = s_2_1 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5086,7 +5086,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5130,7 +5130,7 @@ double binnedBLAS_dmzssq(const int fold, const int N, const void *X, const int i
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = (((double*)x)[0] * scale_mask_inv);
                     x_1 = (((double*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
diff --git a/src/binnedBLAS/samax.ccog b/src/binnedBLAS/samax.ccog
index e256d9e..3c6083a 100644
--- a/src/binnedBLAS/samax.ccog
+++ b/src/binnedBLAS/samax.ccog
@@ -60,7 +60,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX){
     }
     float max_buffer_tmp[8] __attribute__((aligned(32))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m256 X_0, X_1, X_2, X_3, X_4, X_5, X_6, X_7;
     __m256 m_0;
@@ -116,15 +116,15 @@ float binnedBLAS_samax(const int N, const float *X, const int incX){
       }
     }else{
 
-      for(i = 0; i + 64 <= N; i += 64, X += (incX * 64)){
-        X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-        X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-        X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-        X_4 = _mm256_and_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-        X_5 = _mm256_and_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
-        X_6 = _mm256_and_ps(_mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), abs_mask_tmp);
-        X_7 = _mm256_and_ps(_mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]), abs_mask_tmp);
+      for(i = 0; i + 64 <= N; i += 64, X += ((ptrdiff_t)incX * 64)){
+        X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+        X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+        X_4 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+        X_5 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+        X_6 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+        X_7 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
         m_0 = _mm256_max_ps(m_0, X_1);
         m_0 = _mm256_max_ps(m_0, X_2);
@@ -135,32 +135,32 @@ float binnedBLAS_samax(const int N, const float *X, const int incX){
         m_0 = _mm256_max_ps(m_0, X_7);
       }
       if(i + 32 <= N){
-        X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-        X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-        X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
+        X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+        X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
         m_0 = _mm256_max_ps(m_0, X_1);
         m_0 = _mm256_max_ps(m_0, X_2);
         m_0 = _mm256_max_ps(m_0, X_3);
-        i += 32, X += (incX * 32);
+        i += 32, X += ((ptrdiff_t)incX * 32);
       }
       if(i + 16 <= N){
-        X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
+        X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
         m_0 = _mm256_max_ps(m_0, X_1);
-        i += 16, X += (incX * 16);
+        i += 16, X += ((ptrdiff_t)incX * 16);
       }
       if(i + 8 <= N){
-        X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+        X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
-        i += 8, X += (incX * 8);
+        i += 8, X += ((ptrdiff_t)incX * 8);
       }
       if(i < N){
-        X_0 = _mm256_and_ps(_mm256_set_ps(0, (N - i)>6?X[(incX * 6)]:0, (N - i)>5?X[(incX * 5)]:0, (N - i)>4?X[(incX * 4)]:0, (N - i)>3?X[(incX * 3)]:0, (N - i)>2?X[(incX * 2)]:0, (N - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+        X_0 = _mm256_and_ps(_mm256_set_ps(0, (N - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
-        X += (incX * (N - i));
+        X += ((ptrdiff_t)incX * (N - i));
       }
     }
     _mm256_store_ps(max_buffer_tmp, m_0);
@@ -185,7 +185,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX){
     }
     float max_buffer_tmp[4] __attribute__((aligned(16))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m128 X_0, X_1, X_2, X_3, X_4, X_5, X_6, X_7;
     __m128 m_0;
@@ -241,15 +241,15 @@ float binnedBLAS_samax(const int N, const float *X, const int incX){
       }
     }else{
 
-      for(i = 0; i + 32 <= N; i += 32, X += (incX * 32)){
-        X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-        X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-        X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-        X_4 = _mm_and_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-        X_5 = _mm_and_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-        X_6 = _mm_and_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-        X_7 = _mm_and_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
+      for(i = 0; i + 32 <= N; i += 32, X += ((ptrdiff_t)incX * 32)){
+        X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+        X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+        X_4 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+        X_5 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+        X_6 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+        X_7 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
         m_0 = _mm_max_ps(m_0, X_1);
         m_0 = _mm_max_ps(m_0, X_2);
@@ -260,32 +260,32 @@ float binnedBLAS_samax(const int N, const float *X, const int incX){
         m_0 = _mm_max_ps(m_0, X_7);
       }
       if(i + 16 <= N){
-        X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-        X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-        X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+        X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+        X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
         m_0 = _mm_max_ps(m_0, X_1);
         m_0 = _mm_max_ps(m_0, X_2);
         m_0 = _mm_max_ps(m_0, X_3);
-        i += 16, X += (incX * 16);
+        i += 16, X += ((ptrdiff_t)incX * 16);
       }
       if(i + 8 <= N){
-        X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-        X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+        X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+        X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
         m_0 = _mm_max_ps(m_0, X_1);
-        i += 8, X += (incX * 8);
+        i += 8, X += ((ptrdiff_t)incX * 8);
       }
       if(i + 4 <= N){
-        X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+        X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
-        i += 4, X += (incX * 4);
+        i += 4, X += ((ptrdiff_t)incX * 4);
       }
       if(i < N){
-        X_0 = _mm_and_ps(_mm_set_ps(0, (N - i)>2?X[(incX * 2)]:0, (N - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+        X_0 = _mm_and_ps(_mm_set_ps(0, (N - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
-        X += (incX * (N - i));
+        X += ((ptrdiff_t)incX * (N - i));
       }
     }
     _mm_store_ps(max_buffer_tmp, m_0);
@@ -295,7 +295,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX){
     (&amax)[0] = max_buffer_tmp[0];
 
   #else
-    int i;
+    ptrdiff_t i;
 
     float X_0;
     float m_0;
@@ -309,7 +309,7 @@ float binnedBLAS_samax(const int N, const float *X, const int incX){
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, X += incX){
+      for(i = 0; i + 1 <= N; i += 1, X += (ptrdiff_t)incX){
         X_0 = fabsf(X[0]);
         m_0 = (m_0 > X_0? m_0: X_0);
       }
diff --git a/src/binnedBLAS/samaxm.ccog b/src/binnedBLAS/samaxm.ccog
index 5fb3979..54aeeda 100644
--- a/src/binnedBLAS/samaxm.ccog
+++ b/src/binnedBLAS/samaxm.ccog
@@ -62,7 +62,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float
     }
     float max_buffer_tmp[8] __attribute__((aligned(32))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m256 X_0, X_1, X_2, X_3, X_4, X_5, X_6, X_7;
     __m256 Y_0, Y_1, Y_2, Y_3, Y_4, Y_5, Y_6, Y_7;
@@ -151,23 +151,23 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float
       }
     }else{
 
-      for(i = 0; i + 64 <= N; i += 64, X += (incX * 64), Y += (incY * 64)){
-        X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-        X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-        X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-        X_4 = _mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]);
-        X_5 = _mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]);
-        X_6 = _mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]);
-        X_7 = _mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]);
-        Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-        Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-        Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-        Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
-        Y_4 = _mm256_set_ps(Y[(incY * 39)], Y[(incY * 38)], Y[(incY * 37)], Y[(incY * 36)], Y[(incY * 35)], Y[(incY * 34)], Y[(incY * 33)], Y[(incY * 32)]);
-        Y_5 = _mm256_set_ps(Y[(incY * 47)], Y[(incY * 46)], Y[(incY * 45)], Y[(incY * 44)], Y[(incY * 43)], Y[(incY * 42)], Y[(incY * 41)], Y[(incY * 40)]);
-        Y_6 = _mm256_set_ps(Y[(incY * 55)], Y[(incY * 54)], Y[(incY * 53)], Y[(incY * 52)], Y[(incY * 51)], Y[(incY * 50)], Y[(incY * 49)], Y[(incY * 48)]);
-        Y_7 = _mm256_set_ps(Y[(incY * 63)], Y[(incY * 62)], Y[(incY * 61)], Y[(incY * 60)], Y[(incY * 59)], Y[(incY * 58)], Y[(incY * 57)], Y[(incY * 56)]);
+      for(i = 0; i + 64 <= N; i += 64, X += ((ptrdiff_t)incX * 64), Y += ((ptrdiff_t)incY * 64)){
+        X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+        X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+        X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+        X_4 = _mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]);
+        X_5 = _mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]);
+        X_6 = _mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]);
+        X_7 = _mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]);
+        Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+        Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+        Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
+        Y_4 = _mm256_set_ps(Y[((ptrdiff_t)incY * 39)], Y[((ptrdiff_t)incY * 38)], Y[((ptrdiff_t)incY * 37)], Y[((ptrdiff_t)incY * 36)], Y[((ptrdiff_t)incY * 35)], Y[((ptrdiff_t)incY * 34)], Y[((ptrdiff_t)incY * 33)], Y[((ptrdiff_t)incY * 32)]);
+        Y_5 = _mm256_set_ps(Y[((ptrdiff_t)incY * 47)], Y[((ptrdiff_t)incY * 46)], Y[((ptrdiff_t)incY * 45)], Y[((ptrdiff_t)incY * 44)], Y[((ptrdiff_t)incY * 43)], Y[((ptrdiff_t)incY * 42)], Y[((ptrdiff_t)incY * 41)], Y[((ptrdiff_t)incY * 40)]);
+        Y_6 = _mm256_set_ps(Y[((ptrdiff_t)incY * 55)], Y[((ptrdiff_t)incY * 54)], Y[((ptrdiff_t)incY * 53)], Y[((ptrdiff_t)incY * 52)], Y[((ptrdiff_t)incY * 51)], Y[((ptrdiff_t)incY * 50)], Y[((ptrdiff_t)incY * 49)], Y[((ptrdiff_t)incY * 48)]);
+        Y_7 = _mm256_set_ps(Y[((ptrdiff_t)incY * 63)], Y[((ptrdiff_t)incY * 62)], Y[((ptrdiff_t)incY * 61)], Y[((ptrdiff_t)incY * 60)], Y[((ptrdiff_t)incY * 59)], Y[((ptrdiff_t)incY * 58)], Y[((ptrdiff_t)incY * 57)], Y[((ptrdiff_t)incY * 56)]);
         X_0 = _mm256_and_ps(_mm256_mul_ps(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm256_and_ps(_mm256_mul_ps(X_1, Y_1), abs_mask_tmp);
         X_2 = _mm256_and_ps(_mm256_mul_ps(X_2, Y_2), abs_mask_tmp);
@@ -186,14 +186,14 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float
         m_0 = _mm256_max_ps(m_0, X_7);
       }
       if(i + 32 <= N){
-        X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-        X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-        X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-        Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-        Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-        Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-        Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+        X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+        X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+        X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+        Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+        Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+        Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
         X_0 = _mm256_and_ps(_mm256_mul_ps(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm256_and_ps(_mm256_mul_ps(X_1, Y_1), abs_mask_tmp);
         X_2 = _mm256_and_ps(_mm256_mul_ps(X_2, Y_2), abs_mask_tmp);
@@ -202,32 +202,32 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float
         m_0 = _mm256_max_ps(m_0, X_1);
         m_0 = _mm256_max_ps(m_0, X_2);
         m_0 = _mm256_max_ps(m_0, X_3);
-        i += 32, X += (incX * 32), Y += (incY * 32);
+        i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32);
       }
       if(i + 16 <= N){
-        X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-        Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-        Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+        X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+        Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
         X_0 = _mm256_and_ps(_mm256_mul_ps(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm256_and_ps(_mm256_mul_ps(X_1, Y_1), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
         m_0 = _mm256_max_ps(m_0, X_1);
-        i += 16, X += (incX * 16), Y += (incY * 16);
+        i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
       }
       if(i + 8 <= N){
-        X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+        X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
         X_0 = _mm256_and_ps(_mm256_mul_ps(X_0, Y_0), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
-        i += 8, X += (incX * 8), Y += (incY * 8);
+        i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
       }
       if(i < N){
-        X_0 = _mm256_set_ps(0, (N - i)>6?X[(incX * 6)]:0, (N - i)>5?X[(incX * 5)]:0, (N - i)>4?X[(incX * 4)]:0, (N - i)>3?X[(incX * 3)]:0, (N - i)>2?X[(incX * 2)]:0, (N - i)>1?X[incX]:0, X[0]);
-        Y_0 = _mm256_set_ps(0, (N - i)>6?Y[(incY * 6)]:0, (N - i)>5?Y[(incY * 5)]:0, (N - i)>4?Y[(incY * 4)]:0, (N - i)>3?Y[(incY * 3)]:0, (N - i)>2?Y[(incY * 2)]:0, (N - i)>1?Y[incY]:0, Y[0]);
+        X_0 = _mm256_set_ps(0, (N - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+        Y_0 = _mm256_set_ps(0, (N - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
         X_0 = _mm256_and_ps(_mm256_mul_ps(X_0, Y_0), abs_mask_tmp);
         m_0 = _mm256_max_ps(m_0, X_0);
-        X += (incX * (N - i)), Y += (incY * (N - i));
+        X += ((ptrdiff_t)incX * (N - i)), Y += ((ptrdiff_t)incY * (N - i));
       }
     }
     _mm256_store_ps(max_buffer_tmp, m_0);
@@ -252,7 +252,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float
     }
     float max_buffer_tmp[4] __attribute__((aligned(16))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m128 X_0, X_1, X_2, X_3, X_4, X_5, X_6, X_7;
     __m128 Y_0, Y_1, Y_2, Y_3, Y_4, Y_5, Y_6, Y_7;
@@ -341,23 +341,23 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float
       }
     }else{
 
-      for(i = 0; i + 32 <= N; i += 32, X += (incX * 32), Y += (incY * 32)){
-        X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-        X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-        X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-        X_4 = _mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-        X_5 = _mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-        X_6 = _mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-        X_7 = _mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
-        Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-        Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-        Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-        Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
-        Y_4 = _mm_set_ps(Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-        Y_5 = _mm_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)]);
-        Y_6 = _mm_set_ps(Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
-        Y_7 = _mm_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)]);
+      for(i = 0; i + 32 <= N; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+        X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+        X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+        X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+        X_4 = _mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+        X_5 = _mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+        X_6 = _mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+        X_7 = _mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
+        Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+        Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+        Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+        Y_4 = _mm_set_ps(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+        Y_5 = _mm_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+        Y_6 = _mm_set_ps(Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
+        Y_7 = _mm_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)]);
         X_0 = _mm_and_ps(_mm_mul_ps(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm_and_ps(_mm_mul_ps(X_1, Y_1), abs_mask_tmp);
         X_2 = _mm_and_ps(_mm_mul_ps(X_2, Y_2), abs_mask_tmp);
@@ -376,14 +376,14 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float
         m_0 = _mm_max_ps(m_0, X_7);
       }
       if(i + 16 <= N){
-        X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-        X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-        X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-        Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-        Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-        Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-        Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+        X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+        X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+        X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+        Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+        Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+        Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
         X_0 = _mm_and_ps(_mm_mul_ps(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm_and_ps(_mm_mul_ps(X_1, Y_1), abs_mask_tmp);
         X_2 = _mm_and_ps(_mm_mul_ps(X_2, Y_2), abs_mask_tmp);
@@ -392,32 +392,32 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float
         m_0 = _mm_max_ps(m_0, X_1);
         m_0 = _mm_max_ps(m_0, X_2);
         m_0 = _mm_max_ps(m_0, X_3);
-        i += 16, X += (incX * 16), Y += (incY * 16);
+        i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
       }
       if(i + 8 <= N){
-        X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-        Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-        Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+        X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+        Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+        Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
         X_0 = _mm_and_ps(_mm_mul_ps(X_0, Y_0), abs_mask_tmp);
         X_1 = _mm_and_ps(_mm_mul_ps(X_1, Y_1), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
         m_0 = _mm_max_ps(m_0, X_1);
-        i += 8, X += (incX * 8), Y += (incY * 8);
+        i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
       }
       if(i + 4 <= N){
-        X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-        Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+        X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+        Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
         X_0 = _mm_and_ps(_mm_mul_ps(X_0, Y_0), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
-        i += 4, X += (incX * 4), Y += (incY * 4);
+        i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
       }
       if(i < N){
-        X_0 = _mm_set_ps(0, (N - i)>2?X[(incX * 2)]:0, (N - i)>1?X[incX]:0, X[0]);
-        Y_0 = _mm_set_ps(0, (N - i)>2?Y[(incY * 2)]:0, (N - i)>1?Y[incY]:0, Y[0]);
+        X_0 = _mm_set_ps(0, (N - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+        Y_0 = _mm_set_ps(0, (N - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
         X_0 = _mm_and_ps(_mm_mul_ps(X_0, Y_0), abs_mask_tmp);
         m_0 = _mm_max_ps(m_0, X_0);
-        X += (incX * (N - i)), Y += (incY * (N - i));
+        X += ((ptrdiff_t)incX * (N - i)), Y += ((ptrdiff_t)incY * (N - i));
       }
     }
     _mm_store_ps(max_buffer_tmp, m_0);
@@ -427,7 +427,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float
     (&amaxm)[0] = max_buffer_tmp[0];
 
   #else
-    int i;
+    ptrdiff_t i;
 
     float X_0;
     float Y_0;
@@ -444,7 +444,7 @@ float binnedBLAS_samaxm(const int N, const float *X, const int incX, const float
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, X += incX, Y += incY){
+      for(i = 0; i + 1 <= N; i += 1, X += (ptrdiff_t)incX, Y += (ptrdiff_t)incY){
         X_0 = X[0];
         Y_0 = Y[0];
         X_0 = fabsf((X_0 * Y_0));
diff --git a/src/binnedBLAS/smcasum.ccog b/src/binnedBLAS/smcasum.ccog
index d91fce1..7001d25 100644
--- a/src/binnedBLAS/smcasum.ccog
+++ b/src/binnedBLAS/smcasum.ccog
@@ -378,13 +378,13 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -418,10 +418,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -443,11 +443,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm256_add_ps(_mm256_add_ps(x_3, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -459,36 +459,36 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_ps(_mm256_add_ps(x_1, _mm256_mul_ps(q_1, expansion_0)), _mm256_mul_ps(q_1, expansion_mask_0));
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     x_0 = _mm256_add_ps(_mm256_add_ps(x_0, _mm256_mul_ps(q_0, expansion_0)), _mm256_mul_ps(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     x_0 = _mm256_add_ps(_mm256_add_ps(x_0, _mm256_mul_ps(q_0, expansion_0)), _mm256_mul_ps(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -522,10 +522,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -547,11 +547,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm256_add_ps(x_3, q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -563,27 +563,27 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_ps(x_1, q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -976,13 +976,13 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1040,10 +1040,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1081,11 +1081,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm256_add_ps(x_3, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1105,10 +1105,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_ps(x_1, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -1119,10 +1119,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -1133,16 +1133,16 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1200,10 +1200,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1241,11 +1241,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm256_add_ps(x_3, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1265,10 +1265,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_ps(x_1, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -1279,10 +1279,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -1293,7 +1293,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -1806,13 +1806,13 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -1894,10 +1894,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -1951,11 +1951,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_3 = _mm256_add_ps(x_3, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -1983,10 +1983,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_1 = _mm256_add_ps(x_1, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2001,10 +2001,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2019,16 +2019,16 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -2110,10 +2110,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_5, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -2167,11 +2167,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_3 = _mm256_add_ps(x_3, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -2199,10 +2199,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_1 = _mm256_add_ps(x_1, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -2217,10 +2217,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(x_0, blp_mask_tmp));
@@ -2235,7 +2235,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -2719,15 +2719,15 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
-                    x_6 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]), abs_mask_tmp);
-                    x_7 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]), abs_mask_tmp);
+                  for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64)){
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    x_6 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+                    x_7 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2835,10 +2835,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2892,11 +2892,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2924,10 +2924,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2942,10 +2942,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -2960,18 +2960,18 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)], ((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)], ((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
-                    x_6 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)], ((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]), abs_mask_tmp);
-                    x_7 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)], ((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]), abs_mask_tmp);
+                  for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64)){
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_4 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)], ((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_5 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)], ((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    x_6 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)], ((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+                    x_7 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)], ((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -3039,10 +3039,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_2 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_3 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -3076,11 +3076,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_ps(x_3, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -3098,10 +3098,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -3111,10 +3111,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
+                    x_0 = _mm256_and_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -3124,7 +3124,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -3343,11 +3343,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
+                  for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16)){
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3371,8 +3371,8 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3384,17 +3384,17 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(x_0, compression_0), blp_mask_tmp));
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(_mm_add_ps(x_0, _mm_mul_ps(q_0, expansion_0)), _mm_mul_ps(q_0, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_and_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
@@ -3404,14 +3404,14 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(_mm_add_ps(x_0, _mm_mul_ps(q_0, expansion_0)), _mm_mul_ps(q_0, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
+                  for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16)){
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3435,8 +3435,8 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3448,17 +3448,17 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(x_0, blp_mask_tmp));
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_and_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
@@ -3468,7 +3468,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -4189,21 +4189,21 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), abs_mask_tmp);
-                    x_8 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_9 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)]), abs_mask_tmp);
-                    x_10 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
-                    x_11 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)]), abs_mask_tmp);
-                    x_12 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]), abs_mask_tmp);
-                    x_13 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)]), abs_mask_tmp);
+                  for(i = 0; i + 28 <= N_block; i += 28, x += ((ptrdiff_t)incX * 56)){
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    x_8 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_9 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)]), abs_mask_tmp);
+                    x_10 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    x_11 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)]), abs_mask_tmp);
+                    x_12 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+                    x_13 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4333,14 +4333,14 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_13, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4414,13 +4414,13 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_7 = _mm_add_ps(x_7, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4458,11 +4458,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_ps(x_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4482,10 +4482,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -4496,7 +4496,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_and_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
@@ -4510,24 +4510,24 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, x += (incX * 56)){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), abs_mask_tmp);
-                    x_8 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), abs_mask_tmp);
-                    x_9 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)]), abs_mask_tmp);
-                    x_10 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), abs_mask_tmp);
-                    x_11 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)]), abs_mask_tmp);
-                    x_12 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]), abs_mask_tmp);
-                    x_13 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)]), abs_mask_tmp);
+                  for(i = 0; i + 28 <= N_block; i += 28, x += ((ptrdiff_t)incX * 56)){
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    x_8 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    x_9 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)]), abs_mask_tmp);
+                    x_10 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    x_11 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)]), abs_mask_tmp);
+                    x_12 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+                    x_13 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4657,14 +4657,14 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_13, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
-                    x_4 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), abs_mask_tmp);
-                    x_5 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), abs_mask_tmp);
-                    x_6 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), abs_mask_tmp);
-                    x_7 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    x_4 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    x_5 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    x_6 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    x_7 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4738,13 +4738,13 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_7 = _mm_add_ps(x_7, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4782,11 +4782,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_ps(x_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4806,10 +4806,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(x_0, blp_mask_tmp));
@@ -4820,7 +4820,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_and_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
@@ -4834,7 +4834,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -5171,11 +5171,11 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
+                  for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16)){
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -5231,8 +5231,8 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -5260,10 +5260,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_1 = _mm_add_ps(x_1, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -5278,7 +5278,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_and_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
@@ -5296,14 +5296,14 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16)){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
-                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), abs_mask_tmp);
-                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), abs_mask_tmp);
+                  for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16)){
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    x_2 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    x_3 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(x_0, blp_mask_tmp));
@@ -5359,8 +5359,8 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(x_0, blp_mask_tmp));
@@ -5388,10 +5388,10 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_1 = _mm_add_ps(x_1, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(x_0, blp_mask_tmp));
@@ -5406,7 +5406,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_and_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
@@ -5424,7 +5424,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -5614,9 +5614,9 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
+                  for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8)){
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -5644,7 +5644,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm_add_ps(s_0, _mm_or_ps(_mm_mul_ps(x_0, compression_0), blp_mask_tmp));
@@ -5660,7 +5660,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_and_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
@@ -5679,12 +5679,12 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
-                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), abs_mask_tmp);
+                  for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8)){
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_1 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -5702,7 +5702,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
+                    x_0 = _mm_and_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -5712,7 +5712,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_and_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), abs_mask_tmp);
@@ -5725,7 +5725,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -5895,7 +5895,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
@@ -5931,7 +5931,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_2_1 = s_2_1 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
@@ -6116,7 +6116,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
@@ -6158,7 +6158,7 @@ void binnedBLAS_smcasum(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = fabsf(((float*)x)[0]);
                     x_1 = fabsf(((float*)x)[1]);
 
diff --git a/src/binnedBLAS/smcssq.ccog b/src/binnedBLAS/smcssq.ccog
index e335dc6..54cef5e 100644
--- a/src/binnedBLAS/smcssq.ccog
+++ b/src/binnedBLAS/smcssq.ccog
@@ -454,11 +454,11 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_3 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_3 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
                     x_1 = _mm256_mul_ps(x_1, x_1);
                     x_2 = _mm256_mul_ps(x_2, x_2);
@@ -518,8 +518,8 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
                     x_1 = _mm256_mul_ps(x_1, x_1);
 
@@ -549,10 +549,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_ps(x_1, q_1);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -568,10 +568,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_mul_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -587,14 +587,14 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_3 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_3 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
                     x_1 = _mm256_mul_ps(x_1, x_1);
                     x_2 = _mm256_mul_ps(x_2, x_2);
@@ -654,8 +654,8 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
                     x_1 = _mm256_mul_ps(x_1, x_1);
 
@@ -685,10 +685,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_1 = _mm256_add_ps(x_1, q_1);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
                     s_3_1 = _mm256_add_ps(s_3_1, _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -704,10 +704,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_mul_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -723,7 +723,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     x_0 = _mm256_add_ps(x_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -1039,11 +1039,11 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_3 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_3 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
                     x_1 = _mm256_mul_ps(x_1, x_1);
                     x_2 = _mm256_mul_ps(x_2, x_2);
@@ -1103,8 +1103,8 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
                     x_1 = _mm256_mul_ps(x_1, x_1);
 
@@ -1134,10 +1134,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
                     s_0 = s_buffer[0];
@@ -1153,10 +1153,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_mul_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
                     s_0 = s_buffer[0];
@@ -1172,14 +1172,14 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)], ((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_3 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)], ((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_2 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)], ((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_3 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)], ((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
                     x_1 = _mm256_mul_ps(x_1, x_1);
                     x_2 = _mm256_mul_ps(x_2, x_2);
@@ -1219,8 +1219,8 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)], ((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)], ((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
                     x_1 = _mm256_mul_ps(x_1, x_1);
 
@@ -1240,10 +1240,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_ps(x_1, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_1, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)], ((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps(_mm256_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)], ((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -1254,10 +1254,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    x_0 = _mm256_mul_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[(incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[incX]:0, ((double*)((float*)x))[0]), scale_mask_inv);
+                    x_0 = _mm256_mul_ps((__m256)_mm256_set_pd(0, (N_block - i)>2?((double*)((float*)x))[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?((double*)((float*)x))[(ptrdiff_t)incX]:0, ((double*)((float*)x))[0]), scale_mask_inv);
                     x_0 = _mm256_mul_ps(x_0, x_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -1268,7 +1268,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                       x_0 = _mm256_add_ps(x_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -1615,15 +1615,15 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), scale_mask_inv);
-                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
-                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), scale_mask_inv);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -1675,10 +1675,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -1704,11 +1704,11 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_ps(_mm_add_ps(x_3, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
 
@@ -1722,10 +1722,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_ps(_mm_add_ps(x_1, _mm_mul_ps(q_1, expansion_0)), _mm_mul_ps(q_1, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -1733,7 +1733,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(_mm_add_ps(x_0, _mm_mul_ps(q_0, expansion_0)), _mm_mul_ps(q_0, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_mul_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
@@ -1744,18 +1744,18 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(_mm_add_ps(x_0, _mm_mul_ps(q_0, expansion_0)), _mm_mul_ps(q_0, expansion_mask_0));
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), scale_mask_inv);
-                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
-                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), scale_mask_inv);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -1807,10 +1807,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -1836,11 +1836,11 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_ps(x_3, q_1);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
 
@@ -1854,10 +1854,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -1865,7 +1865,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_mul_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
@@ -1876,7 +1876,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -2701,23 +2701,23 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), scale_mask_inv);
-                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
-                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), scale_mask_inv);
-                    x_8 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), scale_mask_inv);
-                    x_9 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)]), scale_mask_inv);
-                    x_10 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), scale_mask_inv);
-                    x_11 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)]), scale_mask_inv);
-                    x_12 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]), scale_mask_inv);
-                    x_13 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)]), scale_mask_inv);
-                    x_14 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]), scale_mask_inv);
-                    x_15 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)]), scale_mask_inv);
+                  for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64)){
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), scale_mask_inv);
+                    x_8 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), scale_mask_inv);
+                    x_9 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)]), scale_mask_inv);
+                    x_10 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), scale_mask_inv);
+                    x_11 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)]), scale_mask_inv);
+                    x_12 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]), scale_mask_inv);
+                    x_13 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)]), scale_mask_inv);
+                    x_14 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]), scale_mask_inv);
+                    x_15 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -2881,14 +2881,14 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_15, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), scale_mask_inv);
-                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
-                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -2970,13 +2970,13 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_7 = _mm_add_ps(x_7, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -3018,11 +3018,11 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_ps(x_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
 
@@ -3044,10 +3044,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -3059,7 +3059,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_mul_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
@@ -3074,26 +3074,26 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, x += (incX * 64)){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), scale_mask_inv);
-                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
-                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), scale_mask_inv);
-                    x_8 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 34) + 1)], ((float*)x)[(incX * 34)], ((float*)x)[((incX * 32) + 1)], ((float*)x)[(incX * 32)]), scale_mask_inv);
-                    x_9 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 38) + 1)], ((float*)x)[(incX * 38)], ((float*)x)[((incX * 36) + 1)], ((float*)x)[(incX * 36)]), scale_mask_inv);
-                    x_10 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 42) + 1)], ((float*)x)[(incX * 42)], ((float*)x)[((incX * 40) + 1)], ((float*)x)[(incX * 40)]), scale_mask_inv);
-                    x_11 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 46) + 1)], ((float*)x)[(incX * 46)], ((float*)x)[((incX * 44) + 1)], ((float*)x)[(incX * 44)]), scale_mask_inv);
-                    x_12 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 50) + 1)], ((float*)x)[(incX * 50)], ((float*)x)[((incX * 48) + 1)], ((float*)x)[(incX * 48)]), scale_mask_inv);
-                    x_13 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 54) + 1)], ((float*)x)[(incX * 54)], ((float*)x)[((incX * 52) + 1)], ((float*)x)[(incX * 52)]), scale_mask_inv);
-                    x_14 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 58) + 1)], ((float*)x)[(incX * 58)], ((float*)x)[((incX * 56) + 1)], ((float*)x)[(incX * 56)]), scale_mask_inv);
-                    x_15 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 62) + 1)], ((float*)x)[(incX * 62)], ((float*)x)[((incX * 60) + 1)], ((float*)x)[(incX * 60)]), scale_mask_inv);
+                  for(i = 0; i + 32 <= N_block; i += 32, x += ((ptrdiff_t)incX * 64)){
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), scale_mask_inv);
+                    x_8 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 34) + 1)], ((float*)x)[((ptrdiff_t)incX * 34)], ((float*)x)[(((ptrdiff_t)incX * 32) + 1)], ((float*)x)[((ptrdiff_t)incX * 32)]), scale_mask_inv);
+                    x_9 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 38) + 1)], ((float*)x)[((ptrdiff_t)incX * 38)], ((float*)x)[(((ptrdiff_t)incX * 36) + 1)], ((float*)x)[((ptrdiff_t)incX * 36)]), scale_mask_inv);
+                    x_10 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 42) + 1)], ((float*)x)[((ptrdiff_t)incX * 42)], ((float*)x)[(((ptrdiff_t)incX * 40) + 1)], ((float*)x)[((ptrdiff_t)incX * 40)]), scale_mask_inv);
+                    x_11 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 46) + 1)], ((float*)x)[((ptrdiff_t)incX * 46)], ((float*)x)[(((ptrdiff_t)incX * 44) + 1)], ((float*)x)[((ptrdiff_t)incX * 44)]), scale_mask_inv);
+                    x_12 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 50) + 1)], ((float*)x)[((ptrdiff_t)incX * 50)], ((float*)x)[(((ptrdiff_t)incX * 48) + 1)], ((float*)x)[((ptrdiff_t)incX * 48)]), scale_mask_inv);
+                    x_13 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 54) + 1)], ((float*)x)[((ptrdiff_t)incX * 54)], ((float*)x)[(((ptrdiff_t)incX * 52) + 1)], ((float*)x)[((ptrdiff_t)incX * 52)]), scale_mask_inv);
+                    x_14 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 58) + 1)], ((float*)x)[((ptrdiff_t)incX * 58)], ((float*)x)[(((ptrdiff_t)incX * 56) + 1)], ((float*)x)[((ptrdiff_t)incX * 56)]), scale_mask_inv);
+                    x_15 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 62) + 1)], ((float*)x)[((ptrdiff_t)incX * 62)], ((float*)x)[(((ptrdiff_t)incX * 60) + 1)], ((float*)x)[((ptrdiff_t)incX * 60)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -3257,14 +3257,14 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_15, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), scale_mask_inv);
-                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
-                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -3346,13 +3346,13 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_7 = _mm_add_ps(x_7, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -3394,11 +3394,11 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_3 = _mm_add_ps(x_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
 
@@ -3420,10 +3420,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     x_1 = _mm_add_ps(x_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -3435,7 +3435,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_mul_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
@@ -3450,7 +3450,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -3961,12 +3961,12 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20)){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
+                  for(i = 0; i + 10 <= N_block; i += 10, x += ((ptrdiff_t)incX * 20)){
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -4040,10 +4040,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_4, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -4101,11 +4101,11 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_3 = _mm_add_ps(x_3, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
 
@@ -4135,10 +4135,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_1 = _mm_add_ps(x_1, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -4154,7 +4154,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_mul_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
@@ -4173,15 +4173,15 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 10 <= N_block; i += 10, x += (incX * 20)){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
+                  for(i = 0; i + 10 <= N_block; i += 10, x += ((ptrdiff_t)incX * 20)){
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -4255,10 +4255,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_4, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -4316,11 +4316,11 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_3 = _mm_add_ps(x_3, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
 
@@ -4350,10 +4350,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_1 = _mm_add_ps(x_1, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
                     q_0 = s_0_0;
@@ -4369,7 +4369,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_mul_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
@@ -4388,7 +4388,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     x_0 = _mm_add_ps(x_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -4878,15 +4878,15 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 1.0, binned_SMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_ps(binned_SMEXPANSION * 0.5, 0.0, binned_SMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), scale_mask_inv);
-                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
-                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), scale_mask_inv);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -4994,10 +4994,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -5051,11 +5051,11 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
 
@@ -5083,10 +5083,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
                     s_0 = s_buffer[0];
@@ -5103,7 +5103,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_mul_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
@@ -5123,18 +5123,18 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
-                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 18) + 1)], ((float*)x)[(incX * 18)], ((float*)x)[((incX * 16) + 1)], ((float*)x)[(incX * 16)]), scale_mask_inv);
-                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 22) + 1)], ((float*)x)[(incX * 22)], ((float*)x)[((incX * 20) + 1)], ((float*)x)[(incX * 20)]), scale_mask_inv);
-                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 26) + 1)], ((float*)x)[(incX * 26)], ((float*)x)[((incX * 24) + 1)], ((float*)x)[(incX * 24)]), scale_mask_inv);
-                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 30) + 1)], ((float*)x)[(incX * 30)], ((float*)x)[((incX * 28) + 1)], ((float*)x)[(incX * 28)]), scale_mask_inv);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    x_4 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 18) + 1)], ((float*)x)[((ptrdiff_t)incX * 18)], ((float*)x)[(((ptrdiff_t)incX * 16) + 1)], ((float*)x)[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    x_5 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 22) + 1)], ((float*)x)[((ptrdiff_t)incX * 22)], ((float*)x)[(((ptrdiff_t)incX * 20) + 1)], ((float*)x)[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    x_6 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 26) + 1)], ((float*)x)[((ptrdiff_t)incX * 26)], ((float*)x)[(((ptrdiff_t)incX * 24) + 1)], ((float*)x)[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    x_7 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 30) + 1)], ((float*)x)[((ptrdiff_t)incX * 30)], ((float*)x)[(((ptrdiff_t)incX * 28) + 1)], ((float*)x)[((ptrdiff_t)incX * 28)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -5202,10 +5202,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
-                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 10) + 1)], ((float*)x)[(incX * 10)], ((float*)x)[((incX * 8) + 1)], ((float*)x)[(incX * 8)]), scale_mask_inv);
-                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 14) + 1)], ((float*)x)[(incX * 14)], ((float*)x)[((incX * 12) + 1)], ((float*)x)[(incX * 12)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    x_2 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 10) + 1)], ((float*)x)[((ptrdiff_t)incX * 10)], ((float*)x)[(((ptrdiff_t)incX * 8) + 1)], ((float*)x)[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    x_3 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 14) + 1)], ((float*)x)[((ptrdiff_t)incX * 14)], ((float*)x)[(((ptrdiff_t)incX * 12) + 1)], ((float*)x)[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
                     x_2 = _mm_mul_ps(x_2, x_2);
@@ -5239,11 +5239,11 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
-                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 6) + 1)], ((float*)x)[(incX * 6)], ((float*)x)[((incX * 4) + 1)], ((float*)x)[(incX * 4)]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_1 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 6) + 1)], ((float*)x)[((ptrdiff_t)incX * 6)], ((float*)x)[(((ptrdiff_t)incX * 4) + 1)], ((float*)x)[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
                     x_1 = _mm_mul_ps(x_1, x_1);
 
@@ -5261,10 +5261,10 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[((incX * 2) + 1)], ((float*)x)[(incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
+                    x_0 = _mm_mul_ps(_mm_set_ps(((float*)x)[(((ptrdiff_t)incX * 2) + 1)], ((float*)x)[((ptrdiff_t)incX * 2)], ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
                     x_0 = _mm_mul_ps(x_0, x_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -5275,7 +5275,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm_mul_ps(_mm_set_ps(0, 0, ((float*)x)[1], ((float*)x)[0]), scale_mask_inv);
@@ -5289,7 +5289,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_add_ps(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -5464,7 +5464,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5502,7 +5502,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_2_1 = s_2_1 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5693,7 +5693,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_SMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
@@ -5737,7 +5737,7 @@ float binnedBLAS_smcssq(const int fold, const int N, const void *X, const int in
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = (((float*)x)[0] * scale_mask_inv);
                     x_1 = (((float*)x)[1] * scale_mask_inv);
                     x_0 = (x_0 * x_0);
diff --git a/src/binnedBLAS/smsasum.ccog b/src/binnedBLAS/smsasum.ccog
index c6f363b..97bf94b 100644
--- a/src/binnedBLAS/smsasum.ccog
+++ b/src/binnedBLAS/smsasum.ccog
@@ -124,7 +124,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               __m256 s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_ss(priY);
-              s_1_0 = s_1_1 = _mm256_broadcast_ss(priY + incpriY);
+              s_1_0 = s_1_1 = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -366,15 +366,15 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_4 = _mm256_and_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_5 = _mm256_and_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
-                    X_6 = _mm256_and_ps(_mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), abs_mask_tmp);
-                    X_7 = _mm256_and_ps(_mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]), abs_mask_tmp);
+                  for(i = 0; i + 64 <= N_block; i += 64, X += ((ptrdiff_t)incX * 64)){
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_4 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_5 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    X_6 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+                    X_7 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -418,10 +418,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -443,11 +443,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_3 = _mm256_add_ps(_mm256_add_ps(X_3, q_1), q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -459,38 +459,38 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_1 = _mm256_add_ps(_mm256_add_ps(X_1, q_1), q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_mul_ps(_mm256_sub_ps(q_0, s_0_0), expansion_0);
                     X_0 = _mm256_add_ps(_mm256_add_ps(X_0, q_0), q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_mul_ps(_mm256_sub_ps(q_0, s_0_0), expansion_0);
                     X_0 = _mm256_add_ps(_mm256_add_ps(X_0, q_0), q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_4 = _mm256_and_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_5 = _mm256_and_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
-                    X_6 = _mm256_and_ps(_mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), abs_mask_tmp);
-                    X_7 = _mm256_and_ps(_mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]), abs_mask_tmp);
+                  for(i = 0; i + 64 <= N_block; i += 64, X += ((ptrdiff_t)incX * 64)){
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_4 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_5 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    X_6 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+                    X_7 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -534,10 +534,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -559,11 +559,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_3 = _mm256_add_ps(X_3, q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -575,27 +575,27 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_1 = _mm256_add_ps(X_1, q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -605,11 +605,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm256_add_ps(s_0_0, _mm256_sub_ps(s_0_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm256_broadcast_ss(priY + incpriY);
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -628,8 +628,8 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               __m256 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_ss(priY);
-              s_1_0 = s_1_1 = _mm256_broadcast_ss(priY + incpriY);
-              s_2_0 = s_2_1 = _mm256_broadcast_ss(priY + (incpriY * 2));
+              s_1_0 = s_1_1 = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -959,13 +959,13 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_4 = _mm256_and_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_5 = _mm256_and_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
+                  for(i = 0; i + 48 <= N_block; i += 48, X += ((ptrdiff_t)incX * 48)){
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_4 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_5 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1023,10 +1023,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1064,11 +1064,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_3 = _mm256_add_ps(X_3, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1088,10 +1088,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_1 = _mm256_add_ps(X_1, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -1102,10 +1102,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -1116,16 +1116,16 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_4 = _mm256_and_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_5 = _mm256_and_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
+                  for(i = 0; i + 48 <= N_block; i += 48, X += ((ptrdiff_t)incX * 48)){
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_4 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_5 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1183,10 +1183,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1224,11 +1224,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_3 = _mm256_add_ps(X_3, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1248,10 +1248,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_1 = _mm256_add_ps(X_1, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -1262,10 +1262,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -1276,7 +1276,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -1286,16 +1286,16 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm256_add_ps(s_0_0, _mm256_sub_ps(s_0_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm256_broadcast_ss(priY + incpriY);
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
-              cons_tmp = _mm256_broadcast_ss(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm256_add_ps(s_2_0, _mm256_sub_ps(s_2_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1315,9 +1315,9 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               __m256 s_3_0;
 
               s_0_0 = _mm256_broadcast_ss(priY);
-              s_1_0 = _mm256_broadcast_ss(priY + incpriY);
-              s_2_0 = _mm256_broadcast_ss(priY + (incpriY * 2));
-              s_3_0 = _mm256_broadcast_ss(priY + (incpriY * 3));
+              s_1_0 = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -1787,14 +1787,14 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 56 <= N_block; i += 56, X += (incX * 56)){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_4 = _mm256_and_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_5 = _mm256_and_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
-                    X_6 = _mm256_and_ps(_mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), abs_mask_tmp);
+                  for(i = 0; i + 56 <= N_block; i += 56, X += ((ptrdiff_t)incX * 56)){
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_4 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_5 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    X_6 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -1889,10 +1889,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_6, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -1946,11 +1946,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_3 = _mm256_add_ps(X_3, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -1978,10 +1978,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_1 = _mm256_add_ps(X_1, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -1996,10 +1996,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2014,17 +2014,17 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 56 <= N_block; i += 56, X += (incX * 56)){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_4 = _mm256_and_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_5 = _mm256_and_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
-                    X_6 = _mm256_and_ps(_mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), abs_mask_tmp);
+                  for(i = 0; i + 56 <= N_block; i += 56, X += ((ptrdiff_t)incX * 56)){
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_4 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_5 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    X_6 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -2119,10 +2119,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_6, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -2176,11 +2176,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_3 = _mm256_add_ps(X_3, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -2208,10 +2208,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_1 = _mm256_add_ps(X_1, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -2226,10 +2226,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -2244,7 +2244,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -2252,15 +2252,15 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm256_sub_ps(s_0_0, _mm256_set_ps(priY[0], priY[0], priY[0], priY[0], priY[0], priY[0], priY[0], 0));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], 0));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], 0));
               _mm256_store_ps(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2278,7 +2278,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               __m256 s_buffer[(binned_SBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm256_broadcast_ss(priY + (incpriY * j));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -2627,13 +2627,13 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_4 = _mm256_and_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_5 = _mm256_and_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
+                  for(i = 0; i + 48 <= N_block; i += 48, X += ((ptrdiff_t)incX * 48)){
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_4 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_5 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -2709,10 +2709,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_5, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -2762,11 +2762,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -2792,10 +2792,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2810,10 +2810,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2828,16 +2828,16 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_4 = _mm256_and_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_5 = _mm256_and_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
+                  for(i = 0; i + 48 <= N_block; i += 48, X += ((ptrdiff_t)incX * 48)){
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_4 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_5 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -2883,10 +2883,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_5, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_2 = _mm256_and_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_3 = _mm256_and_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_2 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_3 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -2916,11 +2916,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm256_and_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -2936,10 +2936,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -2949,10 +2949,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm256_and_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -2962,17 +2962,17 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm256_sub_ps(s_buffer[(j * 2)], _mm256_set_ps(priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], 0));
-                cons_tmp = _mm256_broadcast_ss(priY + (incpriY * j));
+                s_buffer[(j * 2)] = _mm256_sub_ps(s_buffer[(j * 2)], _mm256_set_ps(priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], 0));
+                cons_tmp = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * j));
                 s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_sub_ps(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm256_store_ps(cons_buffer_tmp, s_buffer[(j * 2)]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -3017,7 +3017,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               __m128 s_1_0, s_1_1, s_1_2, s_1_3;
 
               s_0_0 = s_0_1 = s_0_2 = s_0_3 = _mm_load1_ps(priY);
-              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm_load1_ps(priY + incpriY);
+              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -3459,23 +3459,23 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm_and_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm_and_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm_and_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm_and_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
-                    X_8 = _mm_and_ps(_mm_set_ps(X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_9 = _mm_and_ps(_mm_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)]), abs_mask_tmp);
-                    X_10 = _mm_and_ps(_mm_set_ps(X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
-                    X_11 = _mm_and_ps(_mm_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)]), abs_mask_tmp);
-                    X_12 = _mm_and_ps(_mm_set_ps(X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), abs_mask_tmp);
-                    X_13 = _mm_and_ps(_mm_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)]), abs_mask_tmp);
-                    X_14 = _mm_and_ps(_mm_set_ps(X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]), abs_mask_tmp);
-                    X_15 = _mm_and_ps(_mm_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)]), abs_mask_tmp);
+                  for(i = 0; i + 64 <= N_block; i += 64, X += ((ptrdiff_t)incX * 64)){
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    X_8 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_9 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)]), abs_mask_tmp);
+                    X_10 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    X_11 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)]), abs_mask_tmp);
+                    X_12 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+                    X_13 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)]), abs_mask_tmp);
+                    X_14 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]), abs_mask_tmp);
+                    X_15 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3559,14 +3559,14 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_15, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm_and_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm_and_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm_and_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm_and_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3608,13 +3608,13 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_5, blp_mask_tmp));
                     s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(X_6, blp_mask_tmp));
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_7, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3636,11 +3636,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(X_2, blp_mask_tmp));
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3652,46 +3652,46 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_1 = _mm_add_ps(_mm_add_ps(X_1, q_1), q_1);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm_and_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm_and_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm_and_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm_and_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
-                    X_8 = _mm_and_ps(_mm_set_ps(X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), abs_mask_tmp);
-                    X_9 = _mm_and_ps(_mm_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)]), abs_mask_tmp);
-                    X_10 = _mm_and_ps(_mm_set_ps(X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), abs_mask_tmp);
-                    X_11 = _mm_and_ps(_mm_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)]), abs_mask_tmp);
-                    X_12 = _mm_and_ps(_mm_set_ps(X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), abs_mask_tmp);
-                    X_13 = _mm_and_ps(_mm_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)]), abs_mask_tmp);
-                    X_14 = _mm_and_ps(_mm_set_ps(X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]), abs_mask_tmp);
-                    X_15 = _mm_and_ps(_mm_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)]), abs_mask_tmp);
+                  for(i = 0; i + 64 <= N_block; i += 64, X += ((ptrdiff_t)incX * 64)){
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
+                    X_8 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), abs_mask_tmp);
+                    X_9 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)]), abs_mask_tmp);
+                    X_10 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), abs_mask_tmp);
+                    X_11 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)]), abs_mask_tmp);
+                    X_12 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), abs_mask_tmp);
+                    X_13 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)]), abs_mask_tmp);
+                    X_14 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]), abs_mask_tmp);
+                    X_15 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3775,14 +3775,14 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_15, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm_and_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm_and_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm_and_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm_and_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3824,13 +3824,13 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_5, blp_mask_tmp));
                     s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(X_6, blp_mask_tmp));
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_7, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3852,11 +3852,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     s_1_2 = _mm_add_ps(s_1_2, _mm_or_ps(X_2, blp_mask_tmp));
                     s_1_3 = _mm_add_ps(s_1_3, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3868,27 +3868,27 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_1 = _mm_add_ps(X_1, q_1);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -3900,13 +3900,13 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm_add_ps(s_0_0, _mm_sub_ps(s_0_3, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm_load1_ps(priY + incpriY);
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_2, cons_tmp));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_3, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3925,8 +3925,8 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               __m128 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm_load1_ps(priY);
-              s_1_0 = s_1_1 = _mm_load1_ps(priY + incpriY);
-              s_2_0 = s_2_1 = _mm_load1_ps(priY + (incpriY * 2));
+              s_1_0 = s_1_1 = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -4296,15 +4296,15 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm_and_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm_and_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm_and_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm_and_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4380,10 +4380,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4421,11 +4421,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_3 = _mm_add_ps(X_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4445,10 +4445,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_1 = _mm_add_ps(X_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -4459,10 +4459,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -4473,18 +4473,18 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm_and_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
-                    X_5 = _mm_and_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), abs_mask_tmp);
-                    X_6 = _mm_and_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), abs_mask_tmp);
-                    X_7 = _mm_and_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), abs_mask_tmp);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+                    X_5 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+                    X_6 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+                    X_7 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4560,10 +4560,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4601,11 +4601,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_3 = _mm_add_ps(X_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4625,10 +4625,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     X_1 = _mm_add_ps(X_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -4639,10 +4639,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -4653,7 +4653,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -4663,16 +4663,16 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm_add_ps(s_0_0, _mm_sub_ps(s_0_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm_load1_ps(priY + incpriY);
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
-              cons_tmp = _mm_load1_ps(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -4692,9 +4692,9 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               __m128 s_3_0;
 
               s_0_0 = _mm_load1_ps(priY);
-              s_1_0 = _mm_load1_ps(priY + incpriY);
-              s_2_0 = _mm_load1_ps(priY + (incpriY * 2));
-              s_3_0 = _mm_load1_ps(priY + (incpriY * 3));
+              s_1_0 = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -5108,12 +5108,12 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 20 <= N_block; i += 20, X += (incX * 20)){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm_and_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
+                  for(i = 0; i + 20 <= N_block; i += 20, X += ((ptrdiff_t)incX * 20)){
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -5182,10 +5182,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_4, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -5239,11 +5239,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_3 = _mm_add_ps(X_3, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -5271,10 +5271,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_1 = _mm_add_ps(X_1, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -5289,10 +5289,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -5307,15 +5307,15 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 20 <= N_block; i += 20, X += (incX * 20)){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
-                    X_4 = _mm_and_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), abs_mask_tmp);
+                  for(i = 0; i + 20 <= N_block; i += 20, X += ((ptrdiff_t)incX * 20)){
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+                    X_4 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -5384,10 +5384,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_4, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
-                    X_2 = _mm_and_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), abs_mask_tmp);
-                    X_3 = _mm_and_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+                    X_2 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+                    X_3 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -5441,11 +5441,11 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_3 = _mm_add_ps(X_3, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -5473,10 +5473,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_1 = _mm_add_ps(X_1, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -5491,10 +5491,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -5509,7 +5509,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -5517,15 +5517,15 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm_sub_ps(s_0_0, _mm_set_ps(priY[0], priY[0], priY[0], 0));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], 0));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], 0));
               _mm_store_ps(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -5543,7 +5543,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               __m128 s_buffer[(binned_SBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm_load1_ps(priY + (incpriY * j));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -5666,9 +5666,9 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                  for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8)){
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -5696,7 +5696,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm_add_ps(s_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -5711,10 +5711,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm_add_ps(s_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -5729,12 +5729,12 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8)){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
-                    X_1 = _mm_and_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), abs_mask_tmp);
+                  for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8)){
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
+                    X_1 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -5752,7 +5752,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -5762,10 +5762,10 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), abs_mask_tmp);
+                    X_0 = _mm_and_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), abs_mask_tmp);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -5775,17 +5775,17 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm_sub_ps(s_buffer[(j * 2)], _mm_set_ps(priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], 0));
-                cons_tmp = _mm_load1_ps(priY + (incpriY * j));
+                s_buffer[(j * 2)] = _mm_sub_ps(s_buffer[(j * 2)], _mm_set_ps(priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], 0));
+                cons_tmp = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * j));
                 s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_sub_ps(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm_store_ps(cons_buffer_tmp, s_buffer[(j * 2)]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -5813,8 +5813,8 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               float s_2_0;
 
               s_0_0 = priY[0];
-              s_1_0 = priY[incpriY];
-              s_2_0 = priY[(incpriY * 2)];
+              s_1_0 = priY[(ptrdiff_t)incpriY];
+              s_2_0 = priY[((ptrdiff_t)incpriY * 2)];
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -5864,7 +5864,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = fabsf(X[0]);
 
                     q_0 = s_0_0;
@@ -5884,7 +5884,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_2_0 = s_2_0 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = fabsf(X[0]);
 
                     q_0 = s_0_0;
@@ -5907,8 +5907,8 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               }
 
               priY[0] = s_0_0;
-              priY[incpriY] = s_1_0;
-              priY[(incpriY * 2)] = s_2_0;
+              priY[(ptrdiff_t)incpriY] = s_1_0;
+              priY[((ptrdiff_t)incpriY * 2)] = s_2_0;
 
             }
             break;
@@ -5923,7 +5923,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               float s_buffer[binned_SBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = priY[(incpriY * j)];
+                s_buffer[j] = priY[((ptrdiff_t)incpriY * j)];
               }
 
               if(incX == 1){
@@ -5975,7 +5975,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = fabsf(X[0]);
 
                     s_0 = s_buffer[0];
@@ -5999,7 +5999,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = s_buffer[j] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = fabsf(X[0]);
 
                     for(j = 0; j < fold - 1; j++){
@@ -6019,7 +6019,7 @@ void binnedBLAS_smsasum(const int fold, const int N, const float *X, const int i
               }
 
               for(j = 0; j < fold; j += 1){
-                priY[(incpriY * j)] = s_buffer[j];
+                priY[((ptrdiff_t)incpriY * j)] = s_buffer[j];
               }
 
             }
diff --git a/src/binnedBLAS/smsdot.ccog b/src/binnedBLAS/smsdot.ccog
index 92baba6..6f05d51 100644
--- a/src/binnedBLAS/smsdot.ccog
+++ b/src/binnedBLAS/smsdot.ccog
@@ -123,7 +123,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               __m256 s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_ss(priZ);
-              s_1_0 = s_1_1 = _mm256_broadcast_ss(priZ + incpriZ);
+              s_1_0 = s_1_1 = _mm256_broadcast_ss(priZ + (ptrdiff_t)incpriZ);
 
               if(incX == 1){
                 if(incY == 1){
@@ -294,15 +294,15 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += ((ptrdiff_t)incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
                       X_3 = _mm256_loadu_ps(X + 24);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -332,8 +332,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 16 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -347,11 +347,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(_mm256_add_ps(X_1, q_1), q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -359,11 +359,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_mul_ps(_mm256_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_ps(_mm256_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_ps(0, (N_block - i)>6?X[6]:0, (N_block - i)>5?X[5]:0, (N_block - i)>4?X[4]:0, (N_block - i)>3?X[3]:0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -371,18 +371,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_mul_ps(_mm256_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_ps(_mm256_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += ((ptrdiff_t)incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
                       X_3 = _mm256_loadu_ps(X + 24);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -412,8 +412,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 16 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -427,11 +427,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(X_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -439,11 +439,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_0_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_ps(0, (N_block - i)>6?X[6]:0, (N_block - i)>5?X[5]:0, (N_block - i)>4?X[4]:0, (N_block - i)>3?X[3]:0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -451,7 +451,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_0_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -460,11 +460,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += 32){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       Y_2 = _mm256_loadu_ps(Y + 16);
@@ -496,8 +496,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -513,10 +513,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(_mm256_add_ps(X_1, q_1), q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -525,10 +525,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_mul_ps(_mm256_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_ps(_mm256_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[6]:0, (N_block - i)>5?Y[5]:0, (N_block - i)>4?Y[4]:0, (N_block - i)>3?Y[3]:0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -537,14 +537,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_mul_ps(_mm256_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_ps(_mm256_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += 32){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       Y_2 = _mm256_loadu_ps(Y + 16);
@@ -576,8 +576,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -593,10 +593,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(X_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -605,10 +605,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_0_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[6]:0, (N_block - i)>5?Y[5]:0, (N_block - i)>4?Y[4]:0, (N_block - i)>3?Y[3]:0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -617,22 +617,22 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_0_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -660,10 +660,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -677,11 +677,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(_mm256_add_ps(X_1, q_1), q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -689,11 +689,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_mul_ps(_mm256_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_ps(_mm256_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -701,18 +701,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_mul_ps(_mm256_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm256_add_ps(_mm256_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -740,10 +740,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -757,11 +757,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(X_1, q_1);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -769,11 +769,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_0_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -781,7 +781,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_0_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -792,11 +792,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm256_add_ps(s_0_0, _mm256_sub_ps(s_0_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], 0));
-              cons_tmp = _mm256_broadcast_ss(priZ + incpriZ);
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], 0));
+              cons_tmp = _mm256_broadcast_ss(priZ + (ptrdiff_t)incpriZ);
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -816,8 +816,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               __m256 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_ss(priZ);
-              s_1_0 = s_1_1 = _mm256_broadcast_ss(priZ + incpriZ);
-              s_2_0 = s_2_1 = _mm256_broadcast_ss(priZ + (incpriZ * 2));
+              s_1_0 = s_1_1 = _mm256_broadcast_ss(priZ + (ptrdiff_t)incpriZ);
+              s_2_0 = s_2_1 = _mm256_broadcast_ss(priZ + ((ptrdiff_t)incpriZ * 2));
 
               if(incX == 1){
                 if(incY == 1){
@@ -1052,15 +1052,15 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += ((ptrdiff_t)incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
                       X_3 = _mm256_loadu_ps(X + 24);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -1106,8 +1106,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 16 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -1129,11 +1129,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(X_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1145,11 +1145,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_ps(0, (N_block - i)>6?X[6]:0, (N_block - i)>5?X[5]:0, (N_block - i)>4?X[4]:0, (N_block - i)>3?X[3]:0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1161,18 +1161,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += ((ptrdiff_t)incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
                       X_3 = _mm256_loadu_ps(X + 24);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -1218,8 +1218,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 16 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -1241,11 +1241,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(X_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1257,11 +1257,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_ps(0, (N_block - i)>6?X[6]:0, (N_block - i)>5?X[5]:0, (N_block - i)>4?X[4]:0, (N_block - i)>3?X[3]:0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1273,7 +1273,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -1282,11 +1282,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += 32){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       Y_2 = _mm256_loadu_ps(Y + 16);
@@ -1334,8 +1334,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -1359,10 +1359,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(X_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -1375,10 +1375,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[6]:0, (N_block - i)>5?Y[5]:0, (N_block - i)>4?Y[4]:0, (N_block - i)>3?Y[3]:0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -1391,14 +1391,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += 32){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       Y_2 = _mm256_loadu_ps(Y + 16);
@@ -1446,8 +1446,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -1471,10 +1471,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(X_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -1487,10 +1487,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[6]:0, (N_block - i)>5?Y[5]:0, (N_block - i)>4?Y[4]:0, (N_block - i)>3?Y[3]:0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -1503,22 +1503,22 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -1562,10 +1562,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -1587,11 +1587,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(X_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1603,11 +1603,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1619,18 +1619,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -1674,10 +1674,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -1699,11 +1699,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm256_add_ps(X_1, q_1);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1715,11 +1715,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -1731,7 +1731,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_1_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -1742,16 +1742,16 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm256_add_ps(s_0_0, _mm256_sub_ps(s_0_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], 0));
-              cons_tmp = _mm256_broadcast_ss(priZ + incpriZ);
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], 0));
+              cons_tmp = _mm256_broadcast_ss(priZ + (ptrdiff_t)incpriZ);
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], 0));
-              cons_tmp = _mm256_broadcast_ss(priZ + (incpriZ * 2));
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], 0));
+              cons_tmp = _mm256_broadcast_ss(priZ + ((ptrdiff_t)incpriZ * 2));
               s_2_0 = _mm256_add_ps(s_2_0, _mm256_sub_ps(s_2_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              priZ[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priZ[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1772,9 +1772,9 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               __m256 s_3_0;
 
               s_0_0 = _mm256_broadcast_ss(priZ);
-              s_1_0 = _mm256_broadcast_ss(priZ + incpriZ);
-              s_2_0 = _mm256_broadcast_ss(priZ + (incpriZ * 2));
-              s_3_0 = _mm256_broadcast_ss(priZ + (incpriZ * 3));
+              s_1_0 = _mm256_broadcast_ss(priZ + (ptrdiff_t)incpriZ);
+              s_2_0 = _mm256_broadcast_ss(priZ + ((ptrdiff_t)incpriZ * 2));
+              s_3_0 = _mm256_broadcast_ss(priZ + ((ptrdiff_t)incpriZ * 3));
 
               if(incX == 1){
                 if(incY == 1){
@@ -2041,13 +2041,13 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += (incY * 24)){
+                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += ((ptrdiff_t)incY * 24)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -2095,8 +2095,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 16 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -2126,11 +2126,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_1 = _mm256_add_ps(X_1, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2146,11 +2146,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_ps(0, (N_block - i)>6?X[6]:0, (N_block - i)>5?X[5]:0, (N_block - i)>4?X[4]:0, (N_block - i)>3?X[3]:0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2166,16 +2166,16 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += (incY * 24)){
+                    for(i = 0; i + 24 <= N_block; i += 24, X += 24, Y += ((ptrdiff_t)incY * 24)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -2223,8 +2223,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 16 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -2254,11 +2254,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_1 = _mm256_add_ps(X_1, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2274,11 +2274,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_ps(0, (N_block - i)>6?X[6]:0, (N_block - i)>5?X[5]:0, (N_block - i)>4?X[4]:0, (N_block - i)>3?X[3]:0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2294,7 +2294,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -2303,10 +2303,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += 24){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24), Y += 24){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       Y_2 = _mm256_loadu_ps(Y + 16);
@@ -2355,8 +2355,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -2388,10 +2388,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_1 = _mm256_add_ps(X_1, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -2408,10 +2408,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[6]:0, (N_block - i)>5?Y[5]:0, (N_block - i)>4?Y[4]:0, (N_block - i)>3?Y[3]:0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -2428,13 +2428,13 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += 24){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24), Y += 24){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       Y_2 = _mm256_loadu_ps(Y + 16);
@@ -2483,8 +2483,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -2516,10 +2516,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_1 = _mm256_add_ps(X_1, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -2536,10 +2536,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[6]:0, (N_block - i)>5?Y[5]:0, (N_block - i)>4?Y[4]:0, (N_block - i)>3?Y[3]:0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -2556,20 +2556,20 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += (incY * 24)){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24), Y += ((ptrdiff_t)incY * 24)){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -2615,10 +2615,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -2648,11 +2648,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_1 = _mm256_add_ps(X_1, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2668,11 +2668,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2688,16 +2688,16 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 24 <= N_block; i += 24, X += (incX * 24), Y += (incY * 24)){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
+                    for(i = 0; i + 24 <= N_block; i += 24, X += ((ptrdiff_t)incX * 24), Y += ((ptrdiff_t)incY * 24)){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -2743,10 +2743,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -2776,11 +2776,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_1 = _mm256_add_ps(X_1, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2796,11 +2796,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -2816,7 +2816,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm256_sub_ps(q_0, s_2_0);
                       X_0 = _mm256_add_ps(X_0, q_0);
                       s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -2825,15 +2825,15 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm256_sub_ps(s_0_0, _mm256_set_ps(priZ[0], priZ[0], priZ[0], priZ[0], priZ[0], priZ[0], priZ[0], 0));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], 0));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], 0));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], 0));
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], 0));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              priZ[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(priZ[(incpriZ * 3)], priZ[(incpriZ * 3)], priZ[(incpriZ * 3)], priZ[(incpriZ * 3)], priZ[(incpriZ * 3)], priZ[(incpriZ * 3)], priZ[(incpriZ * 3)], 0));
+              priZ[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(priZ[((ptrdiff_t)incpriZ * 3)], priZ[((ptrdiff_t)incpriZ * 3)], priZ[((ptrdiff_t)incpriZ * 3)], priZ[((ptrdiff_t)incpriZ * 3)], priZ[((ptrdiff_t)incpriZ * 3)], priZ[((ptrdiff_t)incpriZ * 3)], priZ[((ptrdiff_t)incpriZ * 3)], 0));
               _mm256_store_ps(cons_buffer_tmp, s_3_0);
-              priZ[(incpriZ * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priZ[((ptrdiff_t)incpriZ * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2852,7 +2852,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               __m256 s_buffer[(binned_SBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm256_broadcast_ss(priZ + (incpriZ * j));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm256_broadcast_ss(priZ + ((ptrdiff_t)incpriZ * j));
               }
 
               if(incX == 1){
@@ -3100,15 +3100,15 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += ((ptrdiff_t)incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
                       X_3 = _mm256_loadu_ps(X + 24);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -3166,8 +3166,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 16 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -3195,11 +3195,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -3215,11 +3215,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_ps(0, (N_block - i)>6?X[6]:0, (N_block - i)>5?X[5]:0, (N_block - i)>4?X[4]:0, (N_block - i)>3?X[3]:0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -3235,18 +3235,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += ((ptrdiff_t)incY * 32)){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
                       X_2 = _mm256_loadu_ps(X + 16);
                       X_3 = _mm256_loadu_ps(X + 24);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -3284,8 +3284,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 16 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
                       X_1 = _mm256_loadu_ps(X + 8);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -3303,11 +3303,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm256_loadu_ps(X);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -3318,11 +3318,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
                       X_0 = _mm256_set_ps(0, (N_block - i)>6?X[6]:0, (N_block - i)>5?X[5]:0, (N_block - i)>4?X[4]:0, (N_block - i)>3?X[3]:0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -3333,7 +3333,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -3342,11 +3342,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += 32){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       Y_2 = _mm256_loadu_ps(Y + 16);
@@ -3406,8 +3406,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -3437,10 +3437,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -3457,10 +3457,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[6]:0, (N_block - i)>5?Y[5]:0, (N_block - i)>4?Y[4]:0, (N_block - i)>3?Y[3]:0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -3477,14 +3477,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += 32){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       Y_2 = _mm256_loadu_ps(Y + 16);
@@ -3524,8 +3524,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
                       Y_0 = _mm256_loadu_ps(Y);
                       Y_1 = _mm256_loadu_ps(Y + 8);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
@@ -3545,10 +3545,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm256_loadu_ps(Y);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -3560,10 +3560,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[6]:0, (N_block - i)>5?Y[5]:0, (N_block - i)>4?Y[4]:0, (N_block - i)>3?Y[3]:0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
@@ -3575,22 +3575,22 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -3646,10 +3646,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -3677,11 +3677,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -3697,11 +3697,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -3717,18 +3717,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_2 = _mm256_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)], Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_3 = _mm256_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)], Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_2 = _mm256_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)], Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_3 = _mm256_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)], Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
                       X_2 = _mm256_mul_ps(X_2, Y_2);
@@ -3764,10 +3764,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm256_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)], Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm256_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)], Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
                       X_1 = _mm256_mul_ps(X_1, Y_1);
 
@@ -3785,11 +3785,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_ps(s_buffer[((j * 2) + 1)], _mm256_or_ps(X_1, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm256_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)], Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm256_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)], Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -3800,11 +3800,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i < N_block){
-                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[(incY * 6)]:0, (N_block - i)>5?Y[(incY * 5)]:0, (N_block - i)>4?Y[(incY * 4)]:0, (N_block - i)>3?Y[(incY * 3)]:0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm256_set_ps(0, (N_block - i)>6?Y[((ptrdiff_t)incY * 6)]:0, (N_block - i)>5?Y[((ptrdiff_t)incY * 5)]:0, (N_block - i)>4?Y[((ptrdiff_t)incY * 4)]:0, (N_block - i)>3?Y[((ptrdiff_t)incY * 3)]:0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm256_mul_ps(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -3815,18 +3815,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm256_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm256_sub_ps(s_buffer[(j * 2)], _mm256_set_ps(priZ[(incpriZ * j)], priZ[(incpriZ * j)], priZ[(incpriZ * j)], priZ[(incpriZ * j)], priZ[(incpriZ * j)], priZ[(incpriZ * j)], priZ[(incpriZ * j)], 0));
-                cons_tmp = _mm256_broadcast_ss(priZ + (incpriZ * j));
+                s_buffer[(j * 2)] = _mm256_sub_ps(s_buffer[(j * 2)], _mm256_set_ps(priZ[((ptrdiff_t)incpriZ * j)], priZ[((ptrdiff_t)incpriZ * j)], priZ[((ptrdiff_t)incpriZ * j)], priZ[((ptrdiff_t)incpriZ * j)], priZ[((ptrdiff_t)incpriZ * j)], priZ[((ptrdiff_t)incpriZ * j)], priZ[((ptrdiff_t)incpriZ * j)], 0));
+                cons_tmp = _mm256_broadcast_ss(priZ + ((ptrdiff_t)incpriZ * j));
                 s_buffer[(j * 2)] = _mm256_add_ps(s_buffer[(j * 2)], _mm256_sub_ps(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm256_store_ps(cons_buffer_tmp, s_buffer[(j * 2)]);
-                priZ[(incpriZ * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+                priZ[((ptrdiff_t)incpriZ * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -3863,7 +3863,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               __m128 s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm_load1_ps(priZ);
-              s_1_0 = s_1_1 = _mm_load1_ps(priZ + incpriZ);
+              s_1_0 = s_1_1 = _mm_load1_ps(priZ + (ptrdiff_t)incpriZ);
 
               if(incX == 1){
                 if(incY == 1){
@@ -3962,11 +3962,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += (incY * 8)){
+                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += ((ptrdiff_t)incY * 8)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -3983,7 +3983,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_ps(X);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -3991,11 +3991,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_ps(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4003,14 +4003,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += (incY * 8)){
+                    for(i = 0; i + 8 <= N_block; i += 8, X += 8, Y += ((ptrdiff_t)incY * 8)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -4027,7 +4027,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_ps(X);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4035,11 +4035,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_0_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_ps(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4047,7 +4047,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_0_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -4056,9 +4056,9 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += 8){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8), Y += 8){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4076,7 +4076,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -4085,10 +4085,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -4097,12 +4097,12 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += 8){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8), Y += 8){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4120,7 +4120,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -4129,10 +4129,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_0_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -4141,18 +4141,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_0_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += (incY * 8)){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8)){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -4168,8 +4168,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4177,11 +4177,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4189,14 +4189,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                       X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, X += (incX * 8), Y += (incY * 8)){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8)){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -4212,8 +4212,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4221,11 +4221,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_0_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4233,7 +4233,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_0_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -4244,11 +4244,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm_add_ps(s_0_0, _mm_sub_ps(s_0_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], 0));
-              cons_tmp = _mm_load1_ps(priZ + incpriZ);
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], 0));
+              cons_tmp = _mm_load1_ps(priZ + (ptrdiff_t)incpriZ);
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -4268,8 +4268,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               __m128 s_2_0;
 
               s_0_0 = _mm_load1_ps(priZ);
-              s_1_0 = _mm_load1_ps(priZ + incpriZ);
-              s_2_0 = _mm_load1_ps(priZ + (incpriZ * 2));
+              s_1_0 = _mm_load1_ps(priZ + (ptrdiff_t)incpriZ);
+              s_2_0 = _mm_load1_ps(priZ + ((ptrdiff_t)incpriZ * 2));
 
               if(incX == 1){
                 if(incY == 1){
@@ -4504,15 +4504,15 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
                       X_3 = _mm_loadu_ps(X + 12);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -4558,8 +4558,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 8 <= N_block){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -4581,11 +4581,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_1 = _mm_add_ps(X_1, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_ps(X);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4597,11 +4597,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_ps(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4613,18 +4613,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
                       X_3 = _mm_loadu_ps(X + 12);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -4670,8 +4670,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 8 <= N_block){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -4693,11 +4693,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_1 = _mm_add_ps(X_1, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_ps(X);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4709,11 +4709,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_ps(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -4725,7 +4725,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -4734,11 +4734,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       Y_2 = _mm_loadu_ps(Y + 8);
@@ -4786,8 +4786,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4811,10 +4811,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_1 = _mm_add_ps(X_1, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -4827,10 +4827,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -4843,14 +4843,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       Y_2 = _mm_loadu_ps(Y + 8);
@@ -4898,8 +4898,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -4923,10 +4923,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_1 = _mm_add_ps(X_1, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -4939,10 +4939,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -4955,22 +4955,22 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -5014,10 +5014,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -5039,11 +5039,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_1 = _mm_add_ps(X_1, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -5055,11 +5055,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -5071,18 +5071,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -5126,10 +5126,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -5151,11 +5151,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_1 = _mm_add_ps(X_1, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -5167,11 +5167,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -5183,7 +5183,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_1_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -5192,12 +5192,12 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm_sub_ps(s_0_0, _mm_set_ps(priZ[0], priZ[0], priZ[0], 0));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], 0));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], 0));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], 0));
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], 0));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              priZ[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priZ[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -5218,9 +5218,9 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               __m128 s_3_0, s_3_1, s_3_2, s_3_3;
 
               s_0_0 = s_0_1 = s_0_2 = s_0_3 = _mm_load1_ps(priZ);
-              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm_load1_ps(priZ + incpriZ);
-              s_2_0 = s_2_1 = s_2_2 = s_2_3 = _mm_load1_ps(priZ + (incpriZ * 2));
-              s_3_0 = s_3_1 = s_3_2 = s_3_3 = _mm_load1_ps(priZ + (incpriZ * 3));
+              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm_load1_ps(priZ + (ptrdiff_t)incpriZ);
+              s_2_0 = s_2_1 = s_2_2 = s_2_3 = _mm_load1_ps(priZ + ((ptrdiff_t)incpriZ * 2));
+              s_3_0 = s_3_1 = s_3_2 = s_3_3 = _mm_load1_ps(priZ + ((ptrdiff_t)incpriZ * 3));
 
               if(incX == 1){
                 if(incY == 1){
@@ -5783,7 +5783,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += ((ptrdiff_t)incY * 32)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -5792,14 +5792,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_5 = _mm_loadu_ps(X + 20);
                       X_6 = _mm_loadu_ps(X + 24);
                       X_7 = _mm_loadu_ps(X + 28);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_4 = _mm_set_ps(Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_5 = _mm_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_6 = _mm_set_ps(Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
-                      Y_7 = _mm_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_4 = _mm_set_ps(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_5 = _mm_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_6 = _mm_set_ps(Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
+                      Y_7 = _mm_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -5919,10 +5919,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
                       X_3 = _mm_loadu_ps(X + 12);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -5980,13 +5980,13 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_2, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -6016,11 +6016,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm_add_ps(X_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_ps(X);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -6036,11 +6036,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_ps(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -6056,10 +6056,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += (incY * 32)){
+                    for(i = 0; i + 32 <= N_block; i += 32, X += 32, Y += ((ptrdiff_t)incY * 32)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
@@ -6068,14 +6068,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_5 = _mm_loadu_ps(X + 20);
                       X_6 = _mm_loadu_ps(X + 24);
                       X_7 = _mm_loadu_ps(X + 28);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_4 = _mm_set_ps(Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_5 = _mm_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_6 = _mm_set_ps(Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
-                      Y_7 = _mm_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_4 = _mm_set_ps(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_5 = _mm_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_6 = _mm_set_ps(Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
+                      Y_7 = _mm_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -6195,10 +6195,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
                       X_3 = _mm_loadu_ps(X + 12);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -6256,13 +6256,13 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_2, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
-                      i += 16, X += 16, Y += (incY * 16);
+                      i += 16, X += 16, Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -6292,11 +6292,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm_add_ps(X_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_ps(X);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -6312,11 +6312,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_ps(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -6332,7 +6332,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -6341,15 +6341,15 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      X_4 = _mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_5 = _mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                      X_6 = _mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      X_7 = _mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += 32){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_4 = _mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_5 = _mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_6 = _mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      X_7 = _mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       Y_2 = _mm_loadu_ps(Y + 8);
@@ -6473,10 +6473,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       Y_2 = _mm_loadu_ps(Y + 8);
@@ -6538,11 +6538,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_2, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -6574,10 +6574,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm_add_ps(X_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -6594,10 +6594,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -6614,18 +6614,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += 32){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      X_4 = _mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_5 = _mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                      X_6 = _mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      X_7 = _mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += 32){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_4 = _mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_5 = _mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_6 = _mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      X_7 = _mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       Y_2 = _mm_loadu_ps(Y + 8);
@@ -6749,10 +6749,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       Y_2 = _mm_loadu_ps(Y + 8);
@@ -6814,11 +6814,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_2, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += 16;
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += 16;
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -6850,10 +6850,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm_add_ps(X_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -6870,10 +6870,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -6890,30 +6890,30 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      X_4 = _mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_5 = _mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                      X_6 = _mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      X_7 = _mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_4 = _mm_set_ps(Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_5 = _mm_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_6 = _mm_set_ps(Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
-                      Y_7 = _mm_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_4 = _mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_5 = _mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_6 = _mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      X_7 = _mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_4 = _mm_set_ps(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_5 = _mm_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_6 = _mm_set_ps(Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
+                      Y_7 = _mm_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -7029,14 +7029,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -7094,13 +7094,13 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_2, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -7130,11 +7130,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm_add_ps(X_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -7150,11 +7150,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -7170,26 +7170,26 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32), Y += (incY * 32)){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      X_4 = _mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                      X_5 = _mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                      X_6 = _mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                      X_7 = _mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
-                      Y_4 = _mm_set_ps(Y[(incY * 19)], Y[(incY * 18)], Y[(incY * 17)], Y[(incY * 16)]);
-                      Y_5 = _mm_set_ps(Y[(incY * 23)], Y[(incY * 22)], Y[(incY * 21)], Y[(incY * 20)]);
-                      Y_6 = _mm_set_ps(Y[(incY * 27)], Y[(incY * 26)], Y[(incY * 25)], Y[(incY * 24)]);
-                      Y_7 = _mm_set_ps(Y[(incY * 31)], Y[(incY * 30)], Y[(incY * 29)], Y[(incY * 28)]);
+                    for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32), Y += ((ptrdiff_t)incY * 32)){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      X_4 = _mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                      X_5 = _mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                      X_6 = _mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                      X_7 = _mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
+                      Y_4 = _mm_set_ps(Y[((ptrdiff_t)incY * 19)], Y[((ptrdiff_t)incY * 18)], Y[((ptrdiff_t)incY * 17)], Y[((ptrdiff_t)incY * 16)]);
+                      Y_5 = _mm_set_ps(Y[((ptrdiff_t)incY * 23)], Y[((ptrdiff_t)incY * 22)], Y[((ptrdiff_t)incY * 21)], Y[((ptrdiff_t)incY * 20)]);
+                      Y_6 = _mm_set_ps(Y[((ptrdiff_t)incY * 27)], Y[((ptrdiff_t)incY * 26)], Y[((ptrdiff_t)incY * 25)], Y[((ptrdiff_t)incY * 24)]);
+                      Y_7 = _mm_set_ps(Y[((ptrdiff_t)incY * 31)], Y[((ptrdiff_t)incY * 30)], Y[((ptrdiff_t)incY * 29)], Y[((ptrdiff_t)incY * 28)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -7305,14 +7305,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_7, blp_mask_tmp));
                     }
                     if(i + 16 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -7370,13 +7370,13 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
                       s_3_2 = _mm_add_ps(s_3_2, _mm_or_ps(X_2, blp_mask_tmp));
                       s_3_3 = _mm_add_ps(s_3_3, _mm_or_ps(X_3, blp_mask_tmp));
-                      i += 16, X += (incX * 16), Y += (incY * 16);
+                      i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16);
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -7406,11 +7406,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       X_1 = _mm_add_ps(X_1, q_1);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
                       s_3_1 = _mm_add_ps(s_3_1, _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -7426,11 +7426,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       q_0 = s_0_0;
@@ -7446,7 +7446,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       q_0 = _mm_sub_ps(q_0, s_2_0);
                       X_0 = _mm_add_ps(X_0, q_0);
                       s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -7459,27 +7459,27 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm_add_ps(s_0_0, _mm_sub_ps(s_0_3, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priZ[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priZ[incpriZ], priZ[incpriZ], priZ[incpriZ], 0));
-              cons_tmp = _mm_load1_ps(priZ + incpriZ);
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], priZ[(ptrdiff_t)incpriZ], 0));
+              cons_tmp = _mm_load1_ps(priZ + (ptrdiff_t)incpriZ);
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_2, cons_tmp));
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_3, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priZ[incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], priZ[(incpriZ * 2)], 0));
-              cons_tmp = _mm_load1_ps(priZ + (incpriZ * 2));
+              priZ[(ptrdiff_t)incpriZ] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], priZ[((ptrdiff_t)incpriZ * 2)], 0));
+              cons_tmp = _mm_load1_ps(priZ + ((ptrdiff_t)incpriZ * 2));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_1, cons_tmp));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_2, cons_tmp));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_3, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              priZ[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(priZ[(incpriZ * 3)], priZ[(incpriZ * 3)], priZ[(incpriZ * 3)], 0));
-              cons_tmp = _mm_load1_ps(priZ + (incpriZ * 3));
+              priZ[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(priZ[((ptrdiff_t)incpriZ * 3)], priZ[((ptrdiff_t)incpriZ * 3)], priZ[((ptrdiff_t)incpriZ * 3)], 0));
+              cons_tmp = _mm_load1_ps(priZ + ((ptrdiff_t)incpriZ * 3));
               s_3_0 = _mm_add_ps(s_3_0, _mm_sub_ps(s_3_1, cons_tmp));
               s_3_0 = _mm_add_ps(s_3_0, _mm_sub_ps(s_3_2, cons_tmp));
               s_3_0 = _mm_add_ps(s_3_0, _mm_sub_ps(s_3_3, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_3_0);
-              priZ[(incpriZ * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priZ[((ptrdiff_t)incpriZ * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -7498,7 +7498,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               __m128 s_buffer[(binned_SBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm_load1_ps(priZ + (incpriZ * j));
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm_load1_ps(priZ + ((ptrdiff_t)incpriZ * j));
               }
 
               if(incX == 1){
@@ -7742,15 +7742,15 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
                       X_3 = _mm_loadu_ps(X + 12);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -7806,8 +7806,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 8 <= N_block){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -7835,11 +7835,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_ps(X);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -7855,11 +7855,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_ps(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -7875,18 +7875,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += (incY * 16)){
+                    for(i = 0; i + 16 <= N_block; i += 16, X += 16, Y += ((ptrdiff_t)incY * 16)){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
                       X_2 = _mm_loadu_ps(X + 8);
                       X_3 = _mm_loadu_ps(X + 12);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -7922,8 +7922,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                     if(i + 8 <= N_block){
                       X_0 = _mm_loadu_ps(X);
                       X_1 = _mm_loadu_ps(X + 4);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -7941,11 +7941,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += 8, Y += (incY * 8);
+                      i += 8, X += 8, Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
                       X_0 = _mm_loadu_ps(X);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -7956,11 +7956,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += 4, Y += (incY * 4);
+                      i += 4, X += 4, Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       X_0 = _mm_set_ps(0, (N_block - i)>2?X[2]:0, (N_block - i)>1?X[1]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -7971,7 +7971,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (N_block - i), Y += (incY * (N_block - i));
+                      X += (N_block - i), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
@@ -7980,11 +7980,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       Y_2 = _mm_loadu_ps(Y + 8);
@@ -8042,8 +8042,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -8073,10 +8073,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -8093,10 +8093,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -8113,14 +8113,14 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += 16){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += 16){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       Y_2 = _mm_loadu_ps(Y + 8);
@@ -8158,8 +8158,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
                       Y_0 = _mm_loadu_ps(Y);
                       Y_1 = _mm_loadu_ps(Y + 4);
                       X_0 = _mm_mul_ps(X_0, Y_0);
@@ -8179,10 +8179,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += 8;
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += 8;
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
                       Y_0 = _mm_loadu_ps(Y);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -8194,10 +8194,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += 4;
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += 4;
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
                       Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[2]:0, (N_block - i)>1?Y[1]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
@@ -8209,22 +8209,22 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (N_block - i);
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += (N_block - i);
                     }
                   }
                 }else{
                   if(binned_smindex0(priZ)){
                     compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                     expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -8278,10 +8278,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -8309,11 +8309,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -8329,11 +8329,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       s_0 = s_buffer[0];
@@ -8349,18 +8349,18 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }else{
-                    for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16), Y += (incY * 16)){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                      X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
-                      Y_2 = _mm_set_ps(Y[(incY * 11)], Y[(incY * 10)], Y[(incY * 9)], Y[(incY * 8)]);
-                      Y_3 = _mm_set_ps(Y[(incY * 15)], Y[(incY * 14)], Y[(incY * 13)], Y[(incY * 12)]);
+                    for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16), Y += ((ptrdiff_t)incY * 16)){
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                      X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
+                      Y_2 = _mm_set_ps(Y[((ptrdiff_t)incY * 11)], Y[((ptrdiff_t)incY * 10)], Y[((ptrdiff_t)incY * 9)], Y[((ptrdiff_t)incY * 8)]);
+                      Y_3 = _mm_set_ps(Y[((ptrdiff_t)incY * 15)], Y[((ptrdiff_t)incY * 14)], Y[((ptrdiff_t)incY * 13)], Y[((ptrdiff_t)incY * 12)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
                       X_2 = _mm_mul_ps(X_2, Y_2);
@@ -8394,10 +8394,10 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                     }
                     if(i + 8 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
-                      Y_1 = _mm_set_ps(Y[(incY * 7)], Y[(incY * 6)], Y[(incY * 5)], Y[(incY * 4)]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
+                      Y_1 = _mm_set_ps(Y[((ptrdiff_t)incY * 7)], Y[((ptrdiff_t)incY * 6)], Y[((ptrdiff_t)incY * 5)], Y[((ptrdiff_t)incY * 4)]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
                       X_1 = _mm_mul_ps(X_1, Y_1);
 
@@ -8415,11 +8415,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
-                      i += 8, X += (incX * 8), Y += (incY * 8);
+                      i += 8, X += ((ptrdiff_t)incX * 8), Y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 4 <= N_block){
-                      X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                      Y_0 = _mm_set_ps(Y[(incY * 3)], Y[(incY * 2)], Y[incY], Y[0]);
+                      X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                      Y_0 = _mm_set_ps(Y[((ptrdiff_t)incY * 3)], Y[((ptrdiff_t)incY * 2)], Y[(ptrdiff_t)incY], Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -8430,11 +8430,11 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      i += 4, X += (incX * 4), Y += (incY * 4);
+                      i += 4, X += ((ptrdiff_t)incX * 4), Y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
-                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
-                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[(incY * 2)]:0, (N_block - i)>1?Y[incY]:0, Y[0]);
+                      X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
+                      Y_0 = _mm_set_ps(0, (N_block - i)>2?Y[((ptrdiff_t)incY * 2)]:0, (N_block - i)>1?Y[(ptrdiff_t)incY]:0, Y[0]);
                       X_0 = _mm_mul_ps(X_0, Y_0);
 
                       for(j = 0; j < fold - 1; j++){
@@ -8445,20 +8445,20 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                         X_0 = _mm_add_ps(X_0, q_0);
                       }
                       s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                      X += (incX * (N_block - i)), Y += (incY * (N_block - i));
+                      X += ((ptrdiff_t)incX * (N_block - i)), Y += ((ptrdiff_t)incY * (N_block - i));
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = _mm_sub_ps(s_buffer[(j * 4)], _mm_set_ps(priZ[(incpriZ * j)], priZ[(incpriZ * j)], priZ[(incpriZ * j)], 0));
-                cons_tmp = _mm_load1_ps(priZ + (incpriZ * j));
+                s_buffer[(j * 4)] = _mm_sub_ps(s_buffer[(j * 4)], _mm_set_ps(priZ[((ptrdiff_t)incpriZ * j)], priZ[((ptrdiff_t)incpriZ * j)], priZ[((ptrdiff_t)incpriZ * j)], 0));
+                cons_tmp = _mm_load1_ps(priZ + ((ptrdiff_t)incpriZ * j));
                 s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_sub_ps(s_buffer[((j * 4) + 1)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_sub_ps(s_buffer[((j * 4) + 2)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_sub_ps(s_buffer[((j * 4) + 3)], cons_tmp));
                 _mm_store_ps(cons_buffer_tmp, s_buffer[(j * 4)]);
-                priZ[(incpriZ * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+                priZ[((ptrdiff_t)incpriZ * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -8487,8 +8487,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               float s_2_0;
 
               s_0_0 = priZ[0];
-              s_1_0 = priZ[incpriZ];
-              s_2_0 = priZ[(incpriZ * 2)];
+              s_1_0 = priZ[(ptrdiff_t)incpriZ];
+              s_2_0 = priZ[((ptrdiff_t)incpriZ * 2)];
 
               if(incX == 1){
                 if(incY == 1){
@@ -8543,7 +8543,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8565,7 +8565,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = s_2_0 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8593,7 +8593,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8615,7 +8615,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = s_2_0 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8641,7 +8641,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8663,7 +8663,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_2_0 = s_2_0 + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8689,8 +8689,8 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               }
 
               priZ[0] = s_0_0;
-              priZ[incpriZ] = s_1_0;
-              priZ[(incpriZ * 2)] = s_2_0;
+              priZ[(ptrdiff_t)incpriZ] = s_1_0;
+              priZ[((ptrdiff_t)incpriZ * 2)] = s_2_0;
 
             }
             break;
@@ -8706,7 +8706,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               float s_buffer[binned_SBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = priZ[(incpriZ * j)];
+                s_buffer[j] = priZ[((ptrdiff_t)incpriZ * j)];
               }
 
               if(incX == 1){
@@ -8763,7 +8763,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8789,7 +8789,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[j] = s_buffer[j] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += 1, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8814,7 +8814,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8840,7 +8840,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[j] = s_buffer[j] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += 1){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += 1){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8863,7 +8863,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                   if(binned_smindex0(priZ)){
                     compression_0 = binned_SMCOMPRESSION;
                     expansion_0 = binned_SMEXPANSION * 0.5;
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8889,7 +8889,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
                       s_buffer[j] = s_buffer[j] + blp_tmp.f;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, X += incX, Y += incY){
+                    for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX, Y += (ptrdiff_t)incY){
                       X_0 = X[0];
                       Y_0 = Y[0];
                       X_0 = (X_0 * Y_0);
@@ -8912,7 +8912,7 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
               }
 
               for(j = 0; j < fold; j += 1){
-                priZ[(incpriZ * j)] = s_buffer[j];
+                priZ[((ptrdiff_t)incpriZ * j)] = s_buffer[j];
               }
 
             }
diff --git a/src/binnedBLAS/smsssq.ccog b/src/binnedBLAS/smsssq.ccog
index 9e0daaf..e4e6e0e 100644
--- a/src/binnedBLAS/smsssq.ccog
+++ b/src/binnedBLAS/smsssq.ccog
@@ -132,8 +132,8 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               __m256 s_2_0;
 
               s_0_0 = _mm256_broadcast_ss(priY);
-              s_1_0 = _mm256_broadcast_ss(priY + incpriY);
-              s_2_0 = _mm256_broadcast_ss(priY + (incpriY * 2));
+              s_1_0 = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -535,15 +535,15 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), scale_mask_inv);
-                    X_5 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), scale_mask_inv);
-                    X_6 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), scale_mask_inv);
-                    X_7 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]), scale_mask_inv);
+                  for(i = 0; i + 64 <= N_block; i += 64, X += ((ptrdiff_t)incX * 64)){
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), scale_mask_inv);
+                    X_5 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), scale_mask_inv);
+                    X_6 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), scale_mask_inv);
+                    X_7 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -627,10 +627,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -672,11 +672,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_3 = _mm256_add_ps(X_3, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
 
@@ -698,10 +698,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_1 = _mm256_add_ps(X_1, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -713,10 +713,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -728,18 +728,18 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), scale_mask_inv);
-                    X_5 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), scale_mask_inv);
-                    X_6 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), scale_mask_inv);
-                    X_7 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]), scale_mask_inv);
+                  for(i = 0; i + 64 <= N_block; i += 64, X += ((ptrdiff_t)incX * 64)){
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), scale_mask_inv);
+                    X_5 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), scale_mask_inv);
+                    X_6 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), scale_mask_inv);
+                    X_7 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -823,10 +823,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -868,11 +868,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_3 = _mm256_add_ps(X_3, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
 
@@ -894,10 +894,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_1 = _mm256_add_ps(X_1, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -909,10 +909,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -924,7 +924,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -932,12 +932,12 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm256_sub_ps(s_0_0, _mm256_set_ps(priY[0], priY[0], priY[0], priY[0], priY[0], priY[0], priY[0], 0));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -957,9 +957,9 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               __m256 s_3_0;
 
               s_0_0 = _mm256_broadcast_ss(priY);
-              s_1_0 = _mm256_broadcast_ss(priY + incpriY);
-              s_2_0 = _mm256_broadcast_ss(priY + (incpriY * 2));
-              s_3_0 = _mm256_broadcast_ss(priY + (incpriY * 3));
+              s_1_0 = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -1399,12 +1399,12 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 40 <= N_block; i += 40, X += (incX * 40)){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), scale_mask_inv);
+                  for(i = 0; i + 40 <= N_block; i += 40, X += ((ptrdiff_t)incX * 40)){
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -1478,10 +1478,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_4, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -1539,11 +1539,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_3 = _mm256_add_ps(X_3, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
 
@@ -1573,10 +1573,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_1 = _mm256_add_ps(X_1, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1592,10 +1592,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1611,15 +1611,15 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 40 <= N_block; i += 40, X += (incX * 40)){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), scale_mask_inv);
+                  for(i = 0; i + 40 <= N_block; i += 40, X += ((ptrdiff_t)incX * 40)){
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -1693,10 +1693,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_4, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -1754,11 +1754,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_3 = _mm256_add_ps(X_3, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
 
@@ -1788,10 +1788,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_1 = _mm256_add_ps(X_1, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1807,10 +1807,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -1826,7 +1826,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -1834,15 +1834,15 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm256_sub_ps(s_0_0, _mm256_set_ps(priY[0], priY[0], priY[0], priY[0], priY[0], priY[0], priY[0], 0));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], 0));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], 0));
               _mm256_store_ps(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1860,7 +1860,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               __m256 s_buffer[binned_SBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_broadcast_ss(priY + (incpriY * j));
+                s_buffer[j] = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -2311,15 +2311,15 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), scale_mask_inv);
-                    X_5 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), scale_mask_inv);
-                    X_6 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), scale_mask_inv);
-                    X_7 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]), scale_mask_inv);
+                  for(i = 0; i + 64 <= N_block; i += 64, X += ((ptrdiff_t)incX * 64)){
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), scale_mask_inv);
+                    X_5 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), scale_mask_inv);
+                    X_6 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), scale_mask_inv);
+                    X_7 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -2435,10 +2435,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -2496,11 +2496,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_3 = _mm256_add_ps(X_3, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
 
@@ -2530,10 +2530,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_1 = _mm256_add_ps(X_1, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     s_0 = s_buffer[0];
@@ -2549,10 +2549,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     s_0 = s_buffer[0];
@@ -2568,18 +2568,18 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), scale_mask_inv);
-                    X_5 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), scale_mask_inv);
-                    X_6 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), scale_mask_inv);
-                    X_7 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]), scale_mask_inv);
+                  for(i = 0; i + 64 <= N_block; i += 64, X += ((ptrdiff_t)incX * 64)){
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_4 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), scale_mask_inv);
+                    X_5 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), scale_mask_inv);
+                    X_6 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), scale_mask_inv);
+                    X_7 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -2655,10 +2655,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_2 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_3 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
                     X_2 = _mm256_mul_ps(X_2, X_2);
@@ -2696,11 +2696,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_3 = _mm256_add_ps(X_3, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
                     X_1 = _mm256_mul_ps(X_1, X_1);
 
@@ -2720,10 +2720,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_1 = _mm256_add_ps(X_1, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -2734,10 +2734,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm256_mul_ps(_mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm256_mul_ps(X_0, X_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -2748,15 +2748,15 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_sub_ps(s_buffer[j], _mm256_set_ps(priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], 0));
+                s_buffer[j] = _mm256_sub_ps(s_buffer[j], _mm256_set_ps(priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], 0));
                 _mm256_store_ps(cons_buffer_tmp, s_buffer[j]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -2793,7 +2793,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               __m128 s_1_0;
 
               s_0_0 = _mm_load1_ps(priY);
-              s_1_0 = _mm_load1_ps(priY + incpriY);
+              s_1_0 = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -3053,14 +3053,14 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm_mul_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm_mul_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_6 = _mm_mul_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
+                  for(i = 0; i + 28 <= N_block; i += 28, X += ((ptrdiff_t)incX * 28)){
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_6 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -3106,10 +3106,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -3135,11 +3135,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                     X_3 = _mm_add_ps(_mm_add_ps(X_3, q_0), q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
 
@@ -3153,10 +3153,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                     X_1 = _mm_add_ps(_mm_add_ps(X_1, q_0), q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -3164,10 +3164,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -3175,17 +3175,17 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm_mul_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm_mul_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_6 = _mm_mul_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
+                  for(i = 0; i + 28 <= N_block; i += 28, X += ((ptrdiff_t)incX * 28)){
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_6 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -3231,10 +3231,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -3260,11 +3260,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     X_3 = _mm_add_ps(X_3, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
 
@@ -3278,10 +3278,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     X_1 = _mm_add_ps(X_1, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -3289,10 +3289,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -3300,7 +3300,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -3308,9 +3308,9 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm_sub_ps(s_0_0, _mm_set_ps(priY[0], priY[0], priY[0], 0));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3329,8 +3329,8 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               __m128 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm_load1_ps(priY);
-              s_1_0 = s_1_1 = _mm_load1_ps(priY + incpriY);
-              s_2_0 = s_2_1 = _mm_load1_ps(priY + (incpriY * 2));
+              s_1_0 = s_1_1 = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -4048,21 +4048,21 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 56 <= N_block; i += 56, X += (incX * 56)){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm_mul_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm_mul_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_6 = _mm_mul_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_7 = _mm_mul_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), scale_mask_inv);
-                    X_8 = _mm_mul_ps(_mm_set_ps(X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), scale_mask_inv);
-                    X_9 = _mm_mul_ps(_mm_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)]), scale_mask_inv);
-                    X_10 = _mm_mul_ps(_mm_set_ps(X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), scale_mask_inv);
-                    X_11 = _mm_mul_ps(_mm_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)]), scale_mask_inv);
-                    X_12 = _mm_mul_ps(_mm_set_ps(X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), scale_mask_inv);
-                    X_13 = _mm_mul_ps(_mm_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)]), scale_mask_inv);
+                  for(i = 0; i + 56 <= N_block; i += 56, X += ((ptrdiff_t)incX * 56)){
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_6 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_7 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), scale_mask_inv);
+                    X_8 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), scale_mask_inv);
+                    X_9 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)]), scale_mask_inv);
+                    X_10 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), scale_mask_inv);
+                    X_11 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)]), scale_mask_inv);
+                    X_12 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), scale_mask_inv);
+                    X_13 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -4206,14 +4206,14 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_13, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm_mul_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm_mul_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_6 = _mm_mul_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_7 = _mm_mul_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_6 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_7 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -4295,13 +4295,13 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_7 = _mm_add_ps(X_7, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -4343,11 +4343,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_3 = _mm_add_ps(X_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
 
@@ -4369,10 +4369,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_1 = _mm_add_ps(X_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -4384,10 +4384,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -4399,24 +4399,24 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 56 <= N_block; i += 56, X += (incX * 56)){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm_mul_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm_mul_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_6 = _mm_mul_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_7 = _mm_mul_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), scale_mask_inv);
-                    X_8 = _mm_mul_ps(_mm_set_ps(X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), scale_mask_inv);
-                    X_9 = _mm_mul_ps(_mm_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)]), scale_mask_inv);
-                    X_10 = _mm_mul_ps(_mm_set_ps(X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]), scale_mask_inv);
-                    X_11 = _mm_mul_ps(_mm_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)]), scale_mask_inv);
-                    X_12 = _mm_mul_ps(_mm_set_ps(X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]), scale_mask_inv);
-                    X_13 = _mm_mul_ps(_mm_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)]), scale_mask_inv);
+                  for(i = 0; i + 56 <= N_block; i += 56, X += ((ptrdiff_t)incX * 56)){
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_6 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_7 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), scale_mask_inv);
+                    X_8 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), scale_mask_inv);
+                    X_9 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)]), scale_mask_inv);
+                    X_10 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]), scale_mask_inv);
+                    X_11 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)]), scale_mask_inv);
+                    X_12 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]), scale_mask_inv);
+                    X_13 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -4560,14 +4560,14 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_13, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm_mul_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm_mul_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_6 = _mm_mul_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_7 = _mm_mul_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_6 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_7 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -4649,13 +4649,13 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_7 = _mm_add_ps(X_7, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_6, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -4697,11 +4697,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_3 = _mm_add_ps(X_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
 
@@ -4723,10 +4723,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     X_1 = _mm_add_ps(X_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -4738,10 +4738,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -4753,7 +4753,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -4763,16 +4763,16 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm_add_ps(s_0_0, _mm_sub_ps(s_0_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm_load1_ps(priY + incpriY);
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
-              cons_tmp = _mm_load1_ps(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -4792,9 +4792,9 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               __m128 s_3_0;
 
               s_0_0 = _mm_load1_ps(priY);
-              s_1_0 = _mm_load1_ps(priY + incpriY);
-              s_2_0 = _mm_load1_ps(priY + (incpriY * 2));
-              s_3_0 = _mm_load1_ps(priY + (incpriY * 3));
+              s_1_0 = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -5046,10 +5046,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
+                  for(i = 0; i + 12 <= N_block; i += 12, X += ((ptrdiff_t)incX * 12)){
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -5095,8 +5095,8 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_2, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
 
@@ -5126,10 +5126,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_1 = _mm_add_ps(X_1, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -5145,10 +5145,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -5164,13 +5164,13 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 12 <= N_block; i += 12, X += (incX * 12)){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
+                  for(i = 0; i + 12 <= N_block; i += 12, X += ((ptrdiff_t)incX * 12)){
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -5216,8 +5216,8 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_2, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
 
@@ -5247,10 +5247,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_1 = _mm_add_ps(X_1, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -5266,10 +5266,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     q_0 = s_0_0;
@@ -5285,7 +5285,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -5293,15 +5293,15 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               s_0_0 = _mm_sub_ps(s_0_0, _mm_set_ps(priY[0], priY[0], priY[0], 0));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], 0));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], 0));
               _mm_store_ps(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -5319,7 +5319,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               __m128 s_buffer[(binned_SBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm_load1_ps(priY + (incpriY * j));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -5980,17 +5980,17 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 40 <= N_block; i += 40, X += (incX * 40)){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm_mul_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm_mul_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_6 = _mm_mul_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_7 = _mm_mul_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), scale_mask_inv);
-                    X_8 = _mm_mul_ps(_mm_set_ps(X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), scale_mask_inv);
-                    X_9 = _mm_mul_ps(_mm_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)]), scale_mask_inv);
+                  for(i = 0; i + 40 <= N_block; i += 40, X += ((ptrdiff_t)incX * 40)){
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_6 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_7 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), scale_mask_inv);
+                    X_8 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), scale_mask_inv);
+                    X_9 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -6124,14 +6124,14 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_9, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm_mul_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm_mul_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_6 = _mm_mul_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_7 = _mm_mul_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_6 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_7 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -6237,13 +6237,13 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_7, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -6297,11 +6297,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
 
@@ -6329,10 +6329,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     s_0 = s_buffer[0];
@@ -6348,10 +6348,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     s_0 = s_buffer[0];
@@ -6367,20 +6367,20 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 40 <= N_block; i += 40, X += (incX * 40)){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm_mul_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm_mul_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_6 = _mm_mul_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_7 = _mm_mul_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), scale_mask_inv);
-                    X_8 = _mm_mul_ps(_mm_set_ps(X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]), scale_mask_inv);
-                    X_9 = _mm_mul_ps(_mm_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)]), scale_mask_inv);
+                  for(i = 0; i + 40 <= N_block; i += 40, X += ((ptrdiff_t)incX * 40)){
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_6 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_7 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), scale_mask_inv);
+                    X_8 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]), scale_mask_inv);
+                    X_9 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -6464,14 +6464,14 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_9, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
-                    X_4 = _mm_mul_ps(_mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]), scale_mask_inv);
-                    X_5 = _mm_mul_ps(_mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]), scale_mask_inv);
-                    X_6 = _mm_mul_ps(_mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]), scale_mask_inv);
-                    X_7 = _mm_mul_ps(_mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
+                    X_4 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]), scale_mask_inv);
+                    X_5 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]), scale_mask_inv);
+                    X_6 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]), scale_mask_inv);
+                    X_7 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -6537,13 +6537,13 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_6, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_7, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
-                    X_2 = _mm_mul_ps(_mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]), scale_mask_inv);
-                    X_3 = _mm_mul_ps(_mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
+                    X_2 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]), scale_mask_inv);
+                    X_3 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
                     X_2 = _mm_mul_ps(X_2, X_2);
@@ -6577,11 +6577,11 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_2, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
-                    X_1 = _mm_mul_ps(_mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
+                    X_1 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
                     X_1 = _mm_mul_ps(X_1, X_1);
 
@@ -6599,10 +6599,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
                     s_buffer[((j * 2) + 1)] = _mm_add_ps(s_buffer[((j * 2) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -6613,10 +6613,10 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]), scale_mask_inv);
+                    X_0 = _mm_mul_ps(_mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]), scale_mask_inv);
                     X_0 = _mm_mul_ps(X_0, X_0);
 
                     for(j = 0; j < fold - 1; j++){
@@ -6627,17 +6627,17 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm_sub_ps(s_buffer[(j * 2)], _mm_set_ps(priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], 0));
-                cons_tmp = _mm_load1_ps(priY + (incpriY * j));
+                s_buffer[(j * 2)] = _mm_sub_ps(s_buffer[(j * 2)], _mm_set_ps(priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], 0));
+                cons_tmp = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * j));
                 s_buffer[(j * 2)] = _mm_add_ps(s_buffer[(j * 2)], _mm_sub_ps(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm_store_ps(cons_buffer_tmp, s_buffer[(j * 2)]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -6666,8 +6666,8 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               float s_2_0;
 
               s_0_0 = priY[0];
-              s_1_0 = priY[incpriY];
-              s_2_0 = priY[(incpriY * 2)];
+              s_1_0 = priY[(ptrdiff_t)incpriY];
+              s_2_0 = priY[((ptrdiff_t)incpriY * 2)];
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -6719,7 +6719,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6740,7 +6740,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_2_0 = s_2_0 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6764,8 +6764,8 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               }
 
               priY[0] = s_0_0;
-              priY[incpriY] = s_1_0;
-              priY[(incpriY * 2)] = s_2_0;
+              priY[(ptrdiff_t)incpriY] = s_1_0;
+              priY[((ptrdiff_t)incpriY * 2)] = s_2_0;
 
             }
             break;
@@ -6780,7 +6780,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               float s_buffer[binned_SBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = priY[(incpriY * j)];
+                s_buffer[j] = priY[((ptrdiff_t)incpriY * j)];
               }
 
               if(incX == 1){
@@ -6834,7 +6834,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6859,7 +6859,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
                     s_buffer[j] = s_buffer[j] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = (X[0] * scale_mask_inv);
                     X_0 = (X_0 * X_0);
 
@@ -6880,7 +6880,7 @@ float binnedBLAS_smsssq(const int fold, const int N, const float *X, const int i
               }
 
               for(j = 0; j < fold; j += 1){
-                priY[(incpriY * j)] = s_buffer[j];
+                priY[((ptrdiff_t)incpriY * j)] = s_buffer[j];
               }
 
             }
diff --git a/src/binnedBLAS/smssum.ccog b/src/binnedBLAS/smssum.ccog
index a2663d4..37f2112 100644
--- a/src/binnedBLAS/smssum.ccog
+++ b/src/binnedBLAS/smssum.ccog
@@ -118,7 +118,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               __m256 s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_ss(priY);
-              s_1_0 = s_1_1 = _mm256_broadcast_ss(priY + incpriY);
+              s_1_0 = s_1_1 = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -488,17 +488,17 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 80 <= N_block; i += 80, X += (incX * 80)){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_4 = _mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]);
-                    X_5 = _mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]);
-                    X_6 = _mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]);
-                    X_7 = _mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]);
-                    X_8 = _mm256_set_ps(X[(incX * 71)], X[(incX * 70)], X[(incX * 69)], X[(incX * 68)], X[(incX * 67)], X[(incX * 66)], X[(incX * 65)], X[(incX * 64)]);
-                    X_9 = _mm256_set_ps(X[(incX * 79)], X[(incX * 78)], X[(incX * 77)], X[(incX * 76)], X[(incX * 75)], X[(incX * 74)], X[(incX * 73)], X[(incX * 72)]);
+                  for(i = 0; i + 80 <= N_block; i += 80, X += ((ptrdiff_t)incX * 80)){
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_4 = _mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]);
+                    X_5 = _mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]);
+                    X_6 = _mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]);
+                    X_7 = _mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]);
+                    X_8 = _mm256_set_ps(X[((ptrdiff_t)incX * 71)], X[((ptrdiff_t)incX * 70)], X[((ptrdiff_t)incX * 69)], X[((ptrdiff_t)incX * 68)], X[((ptrdiff_t)incX * 67)], X[((ptrdiff_t)incX * 66)], X[((ptrdiff_t)incX * 65)], X[((ptrdiff_t)incX * 64)]);
+                    X_9 = _mm256_set_ps(X[((ptrdiff_t)incX * 79)], X[((ptrdiff_t)incX * 78)], X[((ptrdiff_t)incX * 77)], X[((ptrdiff_t)incX * 76)], X[((ptrdiff_t)incX * 75)], X[((ptrdiff_t)incX * 74)], X[((ptrdiff_t)incX * 73)], X[((ptrdiff_t)incX * 72)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -552,14 +552,14 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_9, blp_mask_tmp));
                   }
                   if(i + 64 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_4 = _mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]);
-                    X_5 = _mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]);
-                    X_6 = _mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]);
-                    X_7 = _mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_4 = _mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]);
+                    X_5 = _mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]);
+                    X_6 = _mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]);
+                    X_7 = _mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -601,13 +601,13 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_7 = _mm256_add_ps(_mm256_add_ps(X_7, q_1), q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
-                    i += 64, X += (incX * 64);
+                    i += 64, X += ((ptrdiff_t)incX * 64);
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -629,11 +629,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_3 = _mm256_add_ps(_mm256_add_ps(X_3, q_1), q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -645,40 +645,40 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_1 = _mm256_add_ps(_mm256_add_ps(X_1, q_1), q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_mul_ps(_mm256_sub_ps(q_0, s_0_0), expansion_0);
                     X_0 = _mm256_add_ps(_mm256_add_ps(X_0, q_0), q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_mul_ps(_mm256_sub_ps(q_0, s_0_0), expansion_0);
                     X_0 = _mm256_add_ps(_mm256_add_ps(X_0, q_0), q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 80 <= N_block; i += 80, X += (incX * 80)){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_4 = _mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]);
-                    X_5 = _mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]);
-                    X_6 = _mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]);
-                    X_7 = _mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]);
-                    X_8 = _mm256_set_ps(X[(incX * 71)], X[(incX * 70)], X[(incX * 69)], X[(incX * 68)], X[(incX * 67)], X[(incX * 66)], X[(incX * 65)], X[(incX * 64)]);
-                    X_9 = _mm256_set_ps(X[(incX * 79)], X[(incX * 78)], X[(incX * 77)], X[(incX * 76)], X[(incX * 75)], X[(incX * 74)], X[(incX * 73)], X[(incX * 72)]);
+                  for(i = 0; i + 80 <= N_block; i += 80, X += ((ptrdiff_t)incX * 80)){
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_4 = _mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]);
+                    X_5 = _mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]);
+                    X_6 = _mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]);
+                    X_7 = _mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]);
+                    X_8 = _mm256_set_ps(X[((ptrdiff_t)incX * 71)], X[((ptrdiff_t)incX * 70)], X[((ptrdiff_t)incX * 69)], X[((ptrdiff_t)incX * 68)], X[((ptrdiff_t)incX * 67)], X[((ptrdiff_t)incX * 66)], X[((ptrdiff_t)incX * 65)], X[((ptrdiff_t)incX * 64)]);
+                    X_9 = _mm256_set_ps(X[((ptrdiff_t)incX * 79)], X[((ptrdiff_t)incX * 78)], X[((ptrdiff_t)incX * 77)], X[((ptrdiff_t)incX * 76)], X[((ptrdiff_t)incX * 75)], X[((ptrdiff_t)incX * 74)], X[((ptrdiff_t)incX * 73)], X[((ptrdiff_t)incX * 72)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -732,14 +732,14 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_9, blp_mask_tmp));
                   }
                   if(i + 64 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_4 = _mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]);
-                    X_5 = _mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]);
-                    X_6 = _mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]);
-                    X_7 = _mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_4 = _mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]);
+                    X_5 = _mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]);
+                    X_6 = _mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]);
+                    X_7 = _mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -781,13 +781,13 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_7 = _mm256_add_ps(X_7, q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_6, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_7, blp_mask_tmp));
-                    i += 64, X += (incX * 64);
+                    i += 64, X += ((ptrdiff_t)incX * 64);
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -809,11 +809,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_3 = _mm256_add_ps(X_3, q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -825,27 +825,27 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_1 = _mm256_add_ps(X_1, q_1);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_ps(s_1_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     q_0 = _mm256_sub_ps(q_0, s_0_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_1_0 = _mm256_add_ps(s_1_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -855,11 +855,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm256_add_ps(s_0_0, _mm256_sub_ps(s_0_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm256_broadcast_ss(priY + incpriY);
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -878,8 +878,8 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               __m256 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_ss(priY);
-              s_1_0 = s_1_1 = _mm256_broadcast_ss(priY + incpriY);
-              s_2_0 = s_2_1 = _mm256_broadcast_ss(priY + (incpriY * 2));
+              s_1_0 = s_1_1 = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -1209,13 +1209,13 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_4 = _mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]);
-                    X_5 = _mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]);
+                  for(i = 0; i + 48 <= N_block; i += 48, X += ((ptrdiff_t)incX * 48)){
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_4 = _mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]);
+                    X_5 = _mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1273,10 +1273,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1314,11 +1314,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_3 = _mm256_add_ps(X_3, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1338,10 +1338,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_1 = _mm256_add_ps(X_1, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -1352,10 +1352,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -1366,16 +1366,16 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 48 <= N_block; i += 48, X += (incX * 48)){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_4 = _mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]);
-                    X_5 = _mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]);
+                  for(i = 0; i + 48 <= N_block; i += 48, X += ((ptrdiff_t)incX * 48)){
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_4 = _mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]);
+                    X_5 = _mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1433,10 +1433,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_5, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1474,11 +1474,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_3 = _mm256_add_ps(X_3, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1498,10 +1498,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_1 = _mm256_add_ps(X_1, q_1);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_ps(s_2_1, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -1512,10 +1512,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -1526,7 +1526,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_1_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_2_0 = _mm256_add_ps(s_2_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -1536,16 +1536,16 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm256_add_ps(s_0_0, _mm256_sub_ps(s_0_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm256_broadcast_ss(priY + incpriY);
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm256_add_ps(s_1_0, _mm256_sub_ps(s_1_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
-              cons_tmp = _mm256_broadcast_ss(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm256_add_ps(s_2_0, _mm256_sub_ps(s_2_1, cons_tmp));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1565,9 +1565,9 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               __m256 s_3_0;
 
               s_0_0 = _mm256_broadcast_ss(priY);
-              s_1_0 = _mm256_broadcast_ss(priY + incpriY);
-              s_2_0 = _mm256_broadcast_ss(priY + (incpriY * 2));
-              s_3_0 = _mm256_broadcast_ss(priY + (incpriY * 3));
+              s_1_0 = _mm256_broadcast_ss(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -2065,15 +2065,15 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_4 = _mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]);
-                    X_5 = _mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]);
-                    X_6 = _mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]);
-                    X_7 = _mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]);
+                  for(i = 0; i + 64 <= N_block; i += 64, X += ((ptrdiff_t)incX * 64)){
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_4 = _mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]);
+                    X_5 = _mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]);
+                    X_6 = _mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]);
+                    X_7 = _mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2181,10 +2181,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2238,11 +2238,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_3 = _mm256_add_ps(X_3, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2270,10 +2270,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_1 = _mm256_add_ps(X_1, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2288,10 +2288,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2306,18 +2306,18 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 64 <= N_block; i += 64, X += (incX * 64)){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_4 = _mm256_set_ps(X[(incX * 39)], X[(incX * 38)], X[(incX * 37)], X[(incX * 36)], X[(incX * 35)], X[(incX * 34)], X[(incX * 33)], X[(incX * 32)]);
-                    X_5 = _mm256_set_ps(X[(incX * 47)], X[(incX * 46)], X[(incX * 45)], X[(incX * 44)], X[(incX * 43)], X[(incX * 42)], X[(incX * 41)], X[(incX * 40)]);
-                    X_6 = _mm256_set_ps(X[(incX * 55)], X[(incX * 54)], X[(incX * 53)], X[(incX * 52)], X[(incX * 51)], X[(incX * 50)], X[(incX * 49)], X[(incX * 48)]);
-                    X_7 = _mm256_set_ps(X[(incX * 63)], X[(incX * 62)], X[(incX * 61)], X[(incX * 60)], X[(incX * 59)], X[(incX * 58)], X[(incX * 57)], X[(incX * 56)]);
+                  for(i = 0; i + 64 <= N_block; i += 64, X += ((ptrdiff_t)incX * 64)){
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_4 = _mm256_set_ps(X[((ptrdiff_t)incX * 39)], X[((ptrdiff_t)incX * 38)], X[((ptrdiff_t)incX * 37)], X[((ptrdiff_t)incX * 36)], X[((ptrdiff_t)incX * 35)], X[((ptrdiff_t)incX * 34)], X[((ptrdiff_t)incX * 33)], X[((ptrdiff_t)incX * 32)]);
+                    X_5 = _mm256_set_ps(X[((ptrdiff_t)incX * 47)], X[((ptrdiff_t)incX * 46)], X[((ptrdiff_t)incX * 45)], X[((ptrdiff_t)incX * 44)], X[((ptrdiff_t)incX * 43)], X[((ptrdiff_t)incX * 42)], X[((ptrdiff_t)incX * 41)], X[((ptrdiff_t)incX * 40)]);
+                    X_6 = _mm256_set_ps(X[((ptrdiff_t)incX * 55)], X[((ptrdiff_t)incX * 54)], X[((ptrdiff_t)incX * 53)], X[((ptrdiff_t)incX * 52)], X[((ptrdiff_t)incX * 51)], X[((ptrdiff_t)incX * 50)], X[((ptrdiff_t)incX * 49)], X[((ptrdiff_t)incX * 48)]);
+                    X_7 = _mm256_set_ps(X[((ptrdiff_t)incX * 63)], X[((ptrdiff_t)incX * 62)], X[((ptrdiff_t)incX * 61)], X[((ptrdiff_t)incX * 60)], X[((ptrdiff_t)incX * 59)], X[((ptrdiff_t)incX * 58)], X[((ptrdiff_t)incX * 57)], X[((ptrdiff_t)incX * 56)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -2425,10 +2425,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 32 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_2 = _mm256_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)], X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_3 = _mm256_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)], X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_2 = _mm256_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)], X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_3 = _mm256_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)], X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -2482,11 +2482,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_3 = _mm256_add_ps(X_3, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_3, blp_mask_tmp));
-                    i += 32, X += (incX * 32);
+                    i += 32, X += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -2514,10 +2514,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_1 = _mm256_add_ps(X_1, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_1, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -2532,10 +2532,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_ps(s_0_0, _mm256_or_ps(X_0, blp_mask_tmp));
@@ -2550,7 +2550,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm256_sub_ps(q_0, s_2_0);
                     X_0 = _mm256_add_ps(X_0, q_0);
                     s_3_0 = _mm256_add_ps(s_3_0, _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -2558,15 +2558,15 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm256_sub_ps(s_0_0, _mm256_set_ps(priY[0], priY[0], priY[0], priY[0], priY[0], priY[0], priY[0], 0));
               _mm256_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm256_sub_ps(s_1_0, _mm256_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm256_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_2_0 = _mm256_sub_ps(s_2_0, _mm256_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm256_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
-              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], 0));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              s_3_0 = _mm256_sub_ps(s_3_0, _mm256_set_ps(priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], 0));
               _mm256_store_ps(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2584,7 +2584,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               __m256 s_buffer[binned_SBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_broadcast_ss(priY + (incpriY * j));
+                s_buffer[j] = _mm256_broadcast_ss(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -2711,9 +2711,9 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm256_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm256_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2743,7 +2743,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2758,10 +2758,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_ps(s_0, _mm256_or_ps(_mm256_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -2776,12 +2776,12 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm256_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)], X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm256_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)], X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -2801,7 +2801,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_1, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm256_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)], X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm256_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)], X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -2811,10 +2811,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_0, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i < N_block){
-                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[(incX * 6)]:0, (N_block - i)>5?X[(incX * 5)]:0, (N_block - i)>4?X[(incX * 4)]:0, (N_block - i)>3?X[(incX * 3)]:0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm256_set_ps(0, (N_block - i)>6?X[((ptrdiff_t)incX * 6)]:0, (N_block - i)>5?X[((ptrdiff_t)incX * 5)]:0, (N_block - i)>4?X[((ptrdiff_t)incX * 4)]:0, (N_block - i)>3?X[((ptrdiff_t)incX * 3)]:0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[j];
@@ -2824,15 +2824,15 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                       X_0 = _mm256_add_ps(X_0, q_0);
                     }
                     s_buffer[j] = _mm256_add_ps(s_buffer[j], _mm256_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = _mm256_sub_ps(s_buffer[j], _mm256_set_ps(priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], 0));
+                s_buffer[j] = _mm256_sub_ps(s_buffer[j], _mm256_set_ps(priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], 0));
                 _mm256_store_ps(cons_buffer_tmp, s_buffer[j]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3] + cons_buffer_tmp[4] + cons_buffer_tmp[5] + cons_buffer_tmp[6] + cons_buffer_tmp[7];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -2868,7 +2868,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               __m128 s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm_load1_ps(priY);
-              s_1_0 = s_1_1 = _mm_load1_ps(priY + incpriY);
+              s_1_0 = s_1_1 = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -3006,11 +3006,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3034,8 +3034,8 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3047,34 +3047,34 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_1 = _mm_add_ps(_mm_add_ps(X_1, q_1), q_1);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
                     q_0 = _mm_mul_ps(_mm_sub_ps(q_0, s_0_0), expansion_0);
                     X_0 = _mm_add_ps(_mm_add_ps(X_0, q_0), q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3098,8 +3098,8 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3111,27 +3111,27 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_1 = _mm_add_ps(X_1, q_1);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
                     s_1_1 = _mm_add_ps(s_1_1, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
                     q_0 = _mm_sub_ps(q_0, s_0_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_1_0 = _mm_add_ps(s_1_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -3141,11 +3141,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm_add_ps(s_0_0, _mm_sub_ps(s_0_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm_load1_ps(priY + incpriY);
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3164,8 +3164,8 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               __m128 s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm_load1_ps(priY);
-              s_1_0 = s_1_1 = _mm_load1_ps(priY + incpriY);
-              s_2_0 = s_2_1 = _mm_load1_ps(priY + (incpriY * 2));
+              s_1_0 = s_1_1 = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
+              s_2_0 = s_2_1 = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -3535,15 +3535,15 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                    X_4 = _mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_5 = _mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                    X_6 = _mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_7 = _mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_4 = _mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_5 = _mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                    X_6 = _mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_7 = _mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3619,10 +3619,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3660,11 +3660,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_3 = _mm_add_ps(X_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3684,10 +3684,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_1 = _mm_add_ps(X_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -3698,10 +3698,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -3712,18 +3712,18 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 32 <= N_block; i += 32, X += (incX * 32)){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                    X_4 = _mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_5 = _mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                    X_6 = _mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
-                    X_7 = _mm_set_ps(X[(incX * 31)], X[(incX * 30)], X[(incX * 29)], X[(incX * 28)]);
+                  for(i = 0; i + 32 <= N_block; i += 32, X += ((ptrdiff_t)incX * 32)){
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_4 = _mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_5 = _mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                    X_6 = _mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
+                    X_7 = _mm_set_ps(X[((ptrdiff_t)incX * 31)], X[((ptrdiff_t)incX * 30)], X[((ptrdiff_t)incX * 29)], X[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3799,10 +3799,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_7, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3840,11 +3840,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_3 = _mm_add_ps(X_3, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_2, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3864,10 +3864,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     X_1 = _mm_add_ps(X_1, q_1);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
                     s_2_1 = _mm_add_ps(s_2_1, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -3878,10 +3878,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -3892,7 +3892,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_1_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_2_0 = _mm_add_ps(s_2_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -3902,16 +3902,16 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm_add_ps(s_0_0, _mm_sub_ps(s_0_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], 0));
-              cons_tmp = _mm_load1_ps(priY + incpriY);
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
+              cons_tmp = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
               s_1_0 = _mm_add_ps(s_1_0, _mm_sub_ps(s_1_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
-              cons_tmp = _mm_load1_ps(priY + (incpriY * 2));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
+              cons_tmp = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 2));
               s_2_0 = _mm_add_ps(s_2_0, _mm_sub_ps(s_2_1, cons_tmp));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3931,9 +3931,9 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               __m128 s_3_0;
 
               s_0_0 = _mm_load1_ps(priY);
-              s_1_0 = _mm_load1_ps(priY + incpriY);
-              s_2_0 = _mm_load1_ps(priY + (incpriY * 2));
-              s_3_0 = _mm_load1_ps(priY + (incpriY * 3));
+              s_1_0 = _mm_load1_ps(priY + (ptrdiff_t)incpriY);
+              s_2_0 = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 2));
+              s_3_0 = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * 3));
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -4403,14 +4403,14 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                    X_4 = _mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_5 = _mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                    X_6 = _mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                  for(i = 0; i + 28 <= N_block; i += 28, X += ((ptrdiff_t)incX * 28)){
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_4 = _mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_5 = _mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                    X_6 = _mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -4505,10 +4505,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -4562,11 +4562,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_3 = _mm_add_ps(X_3, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -4594,10 +4594,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_1 = _mm_add_ps(X_1, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -4612,10 +4612,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -4630,17 +4630,17 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 28 <= N_block; i += 28, X += (incX * 28)){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
-                    X_4 = _mm_set_ps(X[(incX * 19)], X[(incX * 18)], X[(incX * 17)], X[(incX * 16)]);
-                    X_5 = _mm_set_ps(X[(incX * 23)], X[(incX * 22)], X[(incX * 21)], X[(incX * 20)]);
-                    X_6 = _mm_set_ps(X[(incX * 27)], X[(incX * 26)], X[(incX * 25)], X[(incX * 24)]);
+                  for(i = 0; i + 28 <= N_block; i += 28, X += ((ptrdiff_t)incX * 28)){
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
+                    X_4 = _mm_set_ps(X[((ptrdiff_t)incX * 19)], X[((ptrdiff_t)incX * 18)], X[((ptrdiff_t)incX * 17)], X[((ptrdiff_t)incX * 16)]);
+                    X_5 = _mm_set_ps(X[((ptrdiff_t)incX * 23)], X[((ptrdiff_t)incX * 22)], X[((ptrdiff_t)incX * 21)], X[((ptrdiff_t)incX * 20)]);
+                    X_6 = _mm_set_ps(X[((ptrdiff_t)incX * 27)], X[((ptrdiff_t)incX * 26)], X[((ptrdiff_t)incX * 25)], X[((ptrdiff_t)incX * 24)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -4735,10 +4735,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_6, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -4792,11 +4792,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_3 = _mm_add_ps(X_3, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_3, blp_mask_tmp));
-                    i += 16, X += (incX * 16);
+                    i += 16, X += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -4824,10 +4824,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_1 = _mm_add_ps(X_1, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -4842,10 +4842,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm_add_ps(s_0_0, _mm_or_ps(X_0, blp_mask_tmp));
@@ -4860,7 +4860,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     q_0 = _mm_sub_ps(q_0, s_2_0);
                     X_0 = _mm_add_ps(X_0, q_0);
                     s_3_0 = _mm_add_ps(s_3_0, _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
@@ -4868,15 +4868,15 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               s_0_0 = _mm_sub_ps(s_0_0, _mm_set_ps(priY[0], priY[0], priY[0], 0));
               _mm_store_ps(cons_buffer_tmp, s_0_0);
               priY[0] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[incpriY], priY[incpriY], priY[incpriY], 0));
+              s_1_0 = _mm_sub_ps(s_1_0, _mm_set_ps(priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], priY[(ptrdiff_t)incpriY], 0));
               _mm_store_ps(cons_buffer_tmp, s_1_0);
-              priY[incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[(incpriY * 2)], priY[(incpriY * 2)], priY[(incpriY * 2)], 0));
+              priY[(ptrdiff_t)incpriY] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_2_0 = _mm_sub_ps(s_2_0, _mm_set_ps(priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], priY[((ptrdiff_t)incpriY * 2)], 0));
               _mm_store_ps(cons_buffer_tmp, s_2_0);
-              priY[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
-              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(priY[(incpriY * 3)], priY[(incpriY * 3)], priY[(incpriY * 3)], 0));
+              priY[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              s_3_0 = _mm_sub_ps(s_3_0, _mm_set_ps(priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], priY[((ptrdiff_t)incpriY * 3)], 0));
               _mm_store_ps(cons_buffer_tmp, s_3_0);
-              priY[(incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+              priY[((ptrdiff_t)incpriY * 3)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -4894,7 +4894,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               __m128 s_buffer[(binned_SBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm_load1_ps(priY + (incpriY * j));
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * j));
               }
 
               if(incX == 1){
@@ -5105,11 +5105,11 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = _mm_set1_ps(binned_SMCOMPRESSION);
                   expansion_0 = _mm_set1_ps(binned_SMEXPANSION * 0.5);
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -5159,8 +5159,8 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -5186,10 +5186,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     }
                     s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
                     s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm_add_ps(s_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -5204,10 +5204,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm_add_ps(s_0, _mm_or_ps(_mm_mul_ps(X_0, compression_0), blp_mask_tmp));
@@ -5222,14 +5222,14 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, X += (incX * 16)){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
-                    X_2 = _mm_set_ps(X[(incX * 11)], X[(incX * 10)], X[(incX * 9)], X[(incX * 8)]);
-                    X_3 = _mm_set_ps(X[(incX * 15)], X[(incX * 14)], X[(incX * 13)], X[(incX * 12)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, X += ((ptrdiff_t)incX * 16)){
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
+                    X_2 = _mm_set_ps(X[((ptrdiff_t)incX * 11)], X[((ptrdiff_t)incX * 10)], X[((ptrdiff_t)incX * 9)], X[((ptrdiff_t)incX * 8)]);
+                    X_3 = _mm_set_ps(X[((ptrdiff_t)incX * 15)], X[((ptrdiff_t)incX * 14)], X[((ptrdiff_t)incX * 13)], X[((ptrdiff_t)incX * 12)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -5259,8 +5259,8 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[((j * 4) + 3)] = _mm_add_ps(s_buffer[((j * 4) + 3)], _mm_or_ps(X_3, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
-                    X_1 = _mm_set_ps(X[(incX * 7)], X[(incX * 6)], X[(incX * 5)], X[(incX * 4)]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
+                    X_1 = _mm_set_ps(X[((ptrdiff_t)incX * 7)], X[((ptrdiff_t)incX * 6)], X[((ptrdiff_t)incX * 5)], X[((ptrdiff_t)incX * 4)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -5276,10 +5276,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     }
                     s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
                     s_buffer[((j * 4) + 1)] = _mm_add_ps(s_buffer[((j * 4) + 1)], _mm_or_ps(X_1, blp_mask_tmp));
-                    i += 8, X += (incX * 8);
+                    i += 8, X += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 4 <= N_block){
-                    X_0 = _mm_set_ps(X[(incX * 3)], X[(incX * 2)], X[incX], X[0]);
+                    X_0 = _mm_set_ps(X[((ptrdiff_t)incX * 3)], X[((ptrdiff_t)incX * 2)], X[(ptrdiff_t)incX], X[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -5289,10 +5289,10 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                    i += 4, X += (incX * 4);
+                    i += 4, X += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
-                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[(incX * 2)]:0, (N_block - i)>1?X[incX]:0, X[0]);
+                    X_0 = _mm_set_ps(0, (N_block - i)>2?X[((ptrdiff_t)incX * 2)]:0, (N_block - i)>1?X[(ptrdiff_t)incX]:0, X[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -5302,19 +5302,19 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                       X_0 = _mm_add_ps(X_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_or_ps(X_0, blp_mask_tmp));
-                    X += (incX * (N_block - i));
+                    X += ((ptrdiff_t)incX * (N_block - i));
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = _mm_sub_ps(s_buffer[(j * 4)], _mm_set_ps(priY[(incpriY * j)], priY[(incpriY * j)], priY[(incpriY * j)], 0));
-                cons_tmp = _mm_load1_ps(priY + (incpriY * j));
+                s_buffer[(j * 4)] = _mm_sub_ps(s_buffer[(j * 4)], _mm_set_ps(priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], priY[((ptrdiff_t)incpriY * j)], 0));
+                cons_tmp = _mm_load1_ps(priY + ((ptrdiff_t)incpriY * j));
                 s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_sub_ps(s_buffer[((j * 4) + 1)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_sub_ps(s_buffer[((j * 4) + 2)], cons_tmp));
                 s_buffer[(j * 4)] = _mm_add_ps(s_buffer[(j * 4)], _mm_sub_ps(s_buffer[((j * 4) + 3)], cons_tmp));
                 _mm_store_ps(cons_buffer_tmp, s_buffer[(j * 4)]);
-                priY[(incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
+                priY[((ptrdiff_t)incpriY * j)] = cons_buffer_tmp[0] + cons_buffer_tmp[1] + cons_buffer_tmp[2] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -5342,8 +5342,8 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               float s_2_0;
 
               s_0_0 = priY[0];
-              s_1_0 = priY[incpriY];
-              s_2_0 = priY[(incpriY * 2)];
+              s_1_0 = priY[(ptrdiff_t)incpriY];
+              s_2_0 = priY[((ptrdiff_t)incpriY * 2)];
 
               if(incX == 1){
                 if(binned_smindex0(priY)){
@@ -5393,7 +5393,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -5413,7 +5413,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_2_0 = s_2_0 + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = X[0];
 
                     q_0 = s_0_0;
@@ -5436,8 +5436,8 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               }
 
               priY[0] = s_0_0;
-              priY[incpriY] = s_1_0;
-              priY[(incpriY * 2)] = s_2_0;
+              priY[(ptrdiff_t)incpriY] = s_1_0;
+              priY[((ptrdiff_t)incpriY * 2)] = s_2_0;
 
             }
             break;
@@ -5452,7 +5452,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               float s_buffer[binned_SBMAXFOLD];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[j] = priY[(incpriY * j)];
+                s_buffer[j] = priY[((ptrdiff_t)incpriY * j)];
               }
 
               if(incX == 1){
@@ -5504,7 +5504,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                 if(binned_smindex0(priY)){
                   compression_0 = binned_SMCOMPRESSION;
                   expansion_0 = binned_SMEXPANSION * 0.5;
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = X[0];
 
                     s_0 = s_buffer[0];
@@ -5528,7 +5528,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
                     s_buffer[j] = s_buffer[j] + blp_tmp.f;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, X += incX){
+                  for(i = 0; i + 1 <= N_block; i += 1, X += (ptrdiff_t)incX){
                     X_0 = X[0];
 
                     for(j = 0; j < fold - 1; j++){
@@ -5548,7 +5548,7 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
               }
 
               for(j = 0; j < fold; j += 1){
-                priY[(incpriY * j)] = s_buffer[j];
+                priY[((ptrdiff_t)incpriY * j)] = s_buffer[j];
               }
 
             }
diff --git a/src/binnedBLAS/zamax_sub.ccog b/src/binnedBLAS/zamax_sub.ccog
index 59d1343..1db1a93 100644
--- a/src/binnedBLAS/zamax_sub.ccog
+++ b/src/binnedBLAS/zamax_sub.ccog
@@ -60,7 +60,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX, void *amax
     }
     double max_buffer_tmp[4] __attribute__((aligned(32))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m256d x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7;
     __m256d m_0;
@@ -116,15 +116,15 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX, void *amax
       }
     }else{
 
-      for(i = 0; i + 16 <= N; i += 16, x += (incX * 32)){
-        x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-        x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-        x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-        x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
-        x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]), abs_mask_tmp);
-        x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]), abs_mask_tmp);
-        x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]), abs_mask_tmp);
-        x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]), abs_mask_tmp);
+      for(i = 0; i + 16 <= N; i += 16, x += ((ptrdiff_t)incX * 32)){
+        x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+        x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+        x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
+        x_4 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]), abs_mask_tmp);
+        x_5 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]), abs_mask_tmp);
+        x_6 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]), abs_mask_tmp);
+        x_7 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
         m_0 = _mm256_max_pd(m_0, x_1);
         m_0 = _mm256_max_pd(m_0, x_2);
@@ -135,32 +135,32 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX, void *amax
         m_0 = _mm256_max_pd(m_0, x_7);
       }
       if(i + 8 <= N){
-        x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-        x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
-        x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]), abs_mask_tmp);
-        x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]), abs_mask_tmp);
+        x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+        x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
+        x_2 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]), abs_mask_tmp);
+        x_3 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
         m_0 = _mm256_max_pd(m_0, x_1);
         m_0 = _mm256_max_pd(m_0, x_2);
         m_0 = _mm256_max_pd(m_0, x_3);
-        i += 8, x += (incX * 16);
+        i += 8, x += ((ptrdiff_t)incX * 16);
       }
       if(i + 4 <= N){
-        x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
-        x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]), abs_mask_tmp);
+        x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+        x_1 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
         m_0 = _mm256_max_pd(m_0, x_1);
-        i += 4, x += (incX * 8);
+        i += 4, x += ((ptrdiff_t)incX * 8);
       }
       if(i + 2 <= N){
-        x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
+        x_0 = _mm256_and_pd(_mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
-        i += 2, x += (incX * 4);
+        i += 2, x += ((ptrdiff_t)incX * 4);
       }
       if(i < N){
         x_0 = _mm256_and_pd(_mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
-        x += (incX * (N - i) * 2);
+        x += ((ptrdiff_t)incX * (N - i) * 2);
       }
     }
     _mm256_store_pd(max_buffer_tmp, m_0);
@@ -181,7 +181,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX, void *amax
     }
     double max_buffer_tmp[2] __attribute__((aligned(16))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m128d x_0, x_1, x_2, x_3, x_4;
     __m128d m_0;
@@ -226,12 +226,12 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX, void *amax
       }
     }else{
 
-      for(i = 0; i + 5 <= N; i += 5, x += (incX * 10)){
+      for(i = 0; i + 5 <= N; i += 5, x += ((ptrdiff_t)incX * 10)){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-        x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-        x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-        x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
-        x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 8)), abs_mask_tmp);
+        x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+        x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+        x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
+        x_4 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8)), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, x_0);
         m_0 = _mm_max_pd(m_0, x_1);
         m_0 = _mm_max_pd(m_0, x_2);
@@ -240,26 +240,26 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX, void *amax
       }
       if(i + 4 <= N){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-        x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
-        x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 4)), abs_mask_tmp);
-        x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 6)), abs_mask_tmp);
+        x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
+        x_2 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4)), abs_mask_tmp);
+        x_3 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6)), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, x_0);
         m_0 = _mm_max_pd(m_0, x_1);
         m_0 = _mm_max_pd(m_0, x_2);
         m_0 = _mm_max_pd(m_0, x_3);
-        i += 4, x += (incX * 8);
+        i += 4, x += ((ptrdiff_t)incX * 8);
       }
       if(i + 2 <= N){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
-        x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + (incX * 2)), abs_mask_tmp);
+        x_1 = _mm_and_pd(_mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2)), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, x_0);
         m_0 = _mm_max_pd(m_0, x_1);
-        i += 2, x += (incX * 4);
+        i += 2, x += ((ptrdiff_t)incX * 4);
       }
       if(i + 1 <= N){
         x_0 = _mm_and_pd(_mm_loadu_pd(((double*)x)), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, x_0);
-        i += 1, x += (incX * 2);
+        i += 1, x += ((ptrdiff_t)incX * 2);
       }
     }
     _mm_store_pd(max_buffer_tmp, m_0);
@@ -267,7 +267,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX, void *amax
     ((double*)amax)[1] = max_buffer_tmp[1];
 
   #else
-    int i;
+    ptrdiff_t i;
 
     double x_0, x_1;
     double m_0, m_1;
@@ -284,7 +284,7 @@ void binnedBLAS_zamax_sub(const int N, const void *X, const int incX, void *amax
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, x += (incX * 2)){
+      for(i = 0; i + 1 <= N; i += 1, x += ((ptrdiff_t)incX * 2)){
         x_0 = fabs(((double*)x)[0]);
         x_1 = fabs(((double*)x)[1]);
         m_0 = (m_0 > x_0? m_0: x_0);
diff --git a/src/binnedBLAS/zamaxm_sub.ccog b/src/binnedBLAS/zamaxm_sub.ccog
index 04d9165..a4abaaa 100644
--- a/src/binnedBLAS/zamaxm_sub.ccog
+++ b/src/binnedBLAS/zamaxm_sub.ccog
@@ -63,7 +63,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
     }
     double max_buffer_tmp[4] __attribute__((aligned(32))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m256d x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7;
     __m256d y_0, y_1, y_2, y_3;
@@ -133,15 +133,15 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
       }
     }else{
 
-      for(i = 0; i + 8 <= N; i += 8, x += (incX * 16), y += (incY * 16)){
-        x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-        x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-        x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-        x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-        y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-        y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-        y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
-        y_3 = _mm256_set_pd(((double*)y)[((incY * 14) + 1)], ((double*)y)[(incY * 14)], ((double*)y)[((incY * 12) + 1)], ((double*)y)[(incY * 12)]);
+      for(i = 0; i + 8 <= N; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+        x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+        x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+        x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+        x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+        y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+        y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+        y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
+        y_3 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 14) + 1)], ((double*)y)[((ptrdiff_t)incY * 14)], ((double*)y)[(((ptrdiff_t)incY * 12) + 1)], ((double*)y)[((ptrdiff_t)incY * 12)]);
         x_4 = _mm256_and_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), abs_mask_tmp);
         x_5 = _mm256_and_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), abs_mask_tmp);
         x_6 = _mm256_and_pd(_mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF)), abs_mask_tmp);
@@ -160,10 +160,10 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
         m_0 = _mm256_max_pd(m_0, x_7);
       }
       if(i + 4 <= N){
-        x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-        x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-        y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-        y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+        x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+        x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+        y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+        y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
         x_2 = _mm256_and_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), abs_mask_tmp);
         x_3 = _mm256_and_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), abs_mask_tmp);
         x_0 = _mm256_and_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), abs_mask_tmp);
@@ -172,16 +172,16 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
         m_0 = _mm256_max_pd(m_0, x_1);
         m_0 = _mm256_max_pd(m_0, x_2);
         m_0 = _mm256_max_pd(m_0, x_3);
-        i += 4, x += (incX * 8), y += (incY * 8);
+        i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
       }
       if(i + 2 <= N){
-        x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-        y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+        x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+        y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
         x_1 = _mm256_and_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), abs_mask_tmp);
         x_0 = _mm256_and_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
         m_0 = _mm256_max_pd(m_0, x_1);
-        i += 2, x += (incX * 4), y += (incY * 4);
+        i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
       }
       if(i < N){
         x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -190,7 +190,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
         x_0 = _mm256_and_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), abs_mask_tmp);
         m_0 = _mm256_max_pd(m_0, x_0);
         m_0 = _mm256_max_pd(m_0, x_1);
-        x += (incX * (N - i) * 2), y += (incY * (N - i) * 2);
+        x += ((ptrdiff_t)incX * (N - i) * 2), y += ((ptrdiff_t)incY * (N - i) * 2);
       }
     }
     _mm256_store_pd(max_buffer_tmp, m_0);
@@ -211,7 +211,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
     }
     double max_buffer_tmp[2] __attribute__((aligned(16))); (void)max_buffer_tmp;
 
-    int i;
+    ptrdiff_t i;
 
     __m128d x_0, x_1, x_2, x_3, x_4, x_5;
     __m128d y_0, y_1, y_2;
@@ -266,13 +266,13 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
       }
     }else{
 
-      for(i = 0; i + 3 <= N; i += 3, x += (incX * 6), y += (incY * 6)){
+      for(i = 0; i + 3 <= N; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
         x_0 = _mm_loadu_pd(((double*)x));
-        x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-        x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+        x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+        x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
         y_0 = _mm_loadu_pd(((double*)y));
-        y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-        y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+        y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+        y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
         x_3 = _mm_and_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), abs_mask_tmp);
         x_4 = _mm_and_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), abs_mask_tmp);
         x_5 = _mm_and_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), abs_mask_tmp);
@@ -288,9 +288,9 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
       }
       if(i + 2 <= N){
         x_0 = _mm_loadu_pd(((double*)x));
-        x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+        x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
         y_0 = _mm_loadu_pd(((double*)y));
-        y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+        y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
         x_2 = _mm_and_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), abs_mask_tmp);
         x_3 = _mm_and_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), abs_mask_tmp);
         x_0 = _mm_and_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), abs_mask_tmp);
@@ -299,7 +299,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
         m_0 = _mm_max_pd(m_0, x_1);
         m_0 = _mm_max_pd(m_0, x_2);
         m_0 = _mm_max_pd(m_0, x_3);
-        i += 2, x += (incX * 4), y += (incY * 4);
+        i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
       }
       if(i + 1 <= N){
         x_0 = _mm_loadu_pd(((double*)x));
@@ -308,7 +308,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
         x_0 = _mm_and_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), abs_mask_tmp);
         m_0 = _mm_max_pd(m_0, x_0);
         m_0 = _mm_max_pd(m_0, x_1);
-        i += 1, x += (incX * 2), y += (incY * 2);
+        i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
       }
     }
     _mm_store_pd(max_buffer_tmp, m_0);
@@ -316,7 +316,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
     ((double*)amaxm)[1] = max_buffer_tmp[1];
 
   #else
-    int i;
+    ptrdiff_t i;
 
     double x_0, x_1, x_2, x_3;
     double y_0, y_1;
@@ -342,7 +342,7 @@ void binnedBLAS_zamaxm_sub(const int N, const void *X, const int incX, const voi
       }
     }else{
 
-      for(i = 0; i + 1 <= N; i += 1, x += (incX * 2), y += (incY * 2)){
+      for(i = 0; i + 1 <= N; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
         x_0 = ((double*)x)[0];
         x_1 = ((double*)x)[1];
         y_0 = ((double*)y)[0];
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 351f3fe..da89c5c 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -156,7 +156,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               __m256d s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ)));
-              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 2)));
+              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 2)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -421,13 +421,13 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += ((ptrdiff_t)incY * 12)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_4 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_5 = _mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF));
@@ -469,8 +469,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -496,11 +496,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(_mm256_add_pd(x_3, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -514,7 +514,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -532,16 +532,16 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += ((ptrdiff_t)incY * 12)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_4 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_5 = _mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF));
@@ -583,8 +583,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -610,11 +610,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(x_3, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -628,7 +628,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -646,7 +646,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -668,10 +668,10 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += 12){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       y_2 = _mm256_loadu_pd(((double*)y) + 8);
@@ -714,8 +714,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -743,10 +743,10 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(_mm256_add_pd(x_3, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -761,7 +761,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -779,13 +779,13 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += 12){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       y_2 = _mm256_loadu_pd(((double*)y) + 8);
@@ -828,8 +828,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -857,10 +857,10 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(x_3, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -875,7 +875,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -893,7 +893,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -913,13 +913,13 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += ((ptrdiff_t)incY * 12)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_4 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_5 = _mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF));
@@ -959,10 +959,10 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -988,11 +988,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(_mm256_add_pd(x_3, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -1006,7 +1006,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1024,16 +1024,16 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += ((ptrdiff_t)incY * 12)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_4 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_5 = _mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF));
@@ -1073,10 +1073,10 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -1102,11 +1102,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(x_3, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -1120,7 +1120,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1138,7 +1138,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -1150,12 +1150,12 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((double*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 2) + 1)], ((double*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1176,8 +1176,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               __m256d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ)));
-              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 4)));
+              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 4)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -1414,11 +1414,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -1463,7 +1463,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -1485,7 +1485,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1511,14 +1511,14 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -1563,7 +1563,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -1585,7 +1585,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1611,7 +1611,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -1633,9 +1633,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1681,7 +1681,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -1704,7 +1704,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1730,12 +1730,12 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -1781,7 +1781,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -1804,7 +1804,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1830,7 +1830,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -1850,11 +1850,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -1898,8 +1898,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -1921,7 +1921,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1947,14 +1947,14 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -1998,8 +1998,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -2021,7 +2021,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2047,7 +2047,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -2059,18 +2059,18 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((double*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 2) + 1)], ((double*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 4) + 1)], ((double*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 4)));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2092,9 +2092,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               __m256d s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ)));
-              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 4)));
-              s_3_0 = s_3_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 6)));
+              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 4)));
+              s_3_0 = s_3_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 6)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -2395,11 +2395,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -2460,7 +2460,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -2490,7 +2490,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2524,14 +2524,14 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -2592,7 +2592,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -2622,7 +2622,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2656,7 +2656,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -2678,9 +2678,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -2742,7 +2742,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -2773,7 +2773,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2807,12 +2807,12 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -2874,7 +2874,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -2905,7 +2905,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2939,7 +2939,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -2959,11 +2959,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -3023,8 +3023,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -3054,7 +3054,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -3088,14 +3088,14 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -3155,8 +3155,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -3186,7 +3186,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -3220,7 +3220,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -3232,24 +3232,24 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((double*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 2) + 1)], ((double*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 4) + 1)], ((double*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 4)));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 6) + 1)], ((double*)priZ)[(incpriZ * 6)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 6)));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 6)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 6)));
               s_3_0 = _mm256_add_pd(s_3_0, _mm256_sub_pd(s_3_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_3_0);
-              ((double*)priZ)[(incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3269,7 +3269,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               __m256d s_buffer[(binned_DBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * j * 2)));
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * j * 2)));
               }
 
               if(incX == 1){
@@ -3515,11 +3515,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -3574,7 +3574,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -3604,7 +3604,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -3638,14 +3638,14 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -3680,7 +3680,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -3698,7 +3698,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -3720,7 +3720,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -3742,9 +3742,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -3800,7 +3800,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -3831,7 +3831,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -3865,12 +3865,12 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
@@ -3906,7 +3906,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -3925,7 +3925,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -3947,7 +3947,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -3967,11 +3967,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -4025,8 +4025,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -4056,7 +4056,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -4090,14 +4090,14 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_3 = _mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
@@ -4131,8 +4131,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF));
                       x_0 = _mm256_xor_pd(_mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0)), conj_mask_tmp);
 
@@ -4150,7 +4150,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -4172,21 +4172,21 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = _mm256_sub_pd(s_buffer[(j * 4)], _mm256_set_pd(((double*)priZ)[((incpriZ * j * 2) + 1)], ((double*)priZ)[(incpriZ * j * 2)], 0, 0));
-                cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * j * 2)));
+                s_buffer[(j * 4)] = _mm256_sub_pd(s_buffer[(j * 4)], _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)], 0, 0));
+                cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * j * 2)));
                 s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_sub_pd(s_buffer[((j * 4) + 1)], cons_tmp));
                 s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_sub_pd(s_buffer[((j * 4) + 2)], cons_tmp));
                 s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_sub_pd(s_buffer[((j * 4) + 3)], cons_tmp));
                 _mm256_store_pd(cons_buffer_tmp, s_buffer[(j * 4)]);
-                ((double*)priZ)[(incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-                ((double*)priZ)[((incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+                ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+                ((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -4231,7 +4231,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               __m128d s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm_loadu_pd(((double*)priZ));
-              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 2));
+              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 2));
 
               if(incX == 1){
                 if(incY == 1){
@@ -4460,13 +4460,13 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -4509,7 +4509,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -4535,7 +4535,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(_mm_add_pd(x_3, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -4553,16 +4553,16 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(_mm_add_pd(x_1, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -4605,7 +4605,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -4631,7 +4631,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -4649,7 +4649,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -4671,10 +4671,10 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -4718,7 +4718,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -4746,7 +4746,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(_mm_add_pd(x_3, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -4764,13 +4764,13 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(_mm_add_pd(x_1, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -4814,7 +4814,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -4842,7 +4842,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -4860,7 +4860,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }
                 }else{
@@ -4880,13 +4880,13 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -4927,9 +4927,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -4955,7 +4955,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(_mm_add_pd(x_3, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -4973,16 +4973,16 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(_mm_add_pd(x_1, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -5023,9 +5023,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -5051,7 +5051,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -5069,7 +5069,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -5080,11 +5080,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0];
               ((double*)priZ)[1] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 2));
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -5105,8 +5105,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               __m128d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm_loadu_pd(((double*)priZ));
-              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 2));
-              s_2_0 = s_2_1 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 4));
+              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 2));
+              s_2_0 = s_2_1 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 4));
 
               if(incX == 1){
                 if(incY == 1){
@@ -5431,13 +5431,13 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -5504,7 +5504,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -5546,7 +5546,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -5572,16 +5572,16 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -5648,7 +5648,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -5690,7 +5690,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -5716,7 +5716,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -5738,10 +5738,10 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -5809,7 +5809,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -5853,7 +5853,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -5879,13 +5879,13 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -5953,7 +5953,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -5997,7 +5997,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -6023,7 +6023,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }
                 }else{
@@ -6043,13 +6043,13 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -6114,9 +6114,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -6158,7 +6158,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -6184,16 +6184,16 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -6258,9 +6258,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -6302,7 +6302,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -6328,7 +6328,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -6339,16 +6339,16 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0];
               ((double*)priZ)[1] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 2));
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 4));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1];
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 4));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -6370,9 +6370,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               __m128d s_3_0, s_3_1, s_3_2, s_3_3;
 
               s_0_0 = s_0_1 = s_0_2 = s_0_3 = _mm_loadu_pd(((double*)priZ));
-              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 2));
-              s_2_0 = s_2_1 = s_2_2 = s_2_3 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 4));
-              s_3_0 = s_3_1 = s_3_2 = s_3_3 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 6));
+              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 2));
+              s_2_0 = s_2_1 = s_2_2 = s_2_3 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 4));
+              s_3_0 = s_3_1 = s_3_2 = s_3_3 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 6));
 
               if(incX == 1){
                 if(incY == 1){
@@ -6605,11 +6605,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 2 <= N_block; i += 2, x += 4, y += (incY * 4)){
+                    for(i = 0; i + 2 <= N_block; i += 2, x += 4, y += ((ptrdiff_t)incY * 4)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -6700,14 +6700,14 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 2 <= N_block; i += 2, x += 4, y += (incY * 4)){
+                    for(i = 0; i + 2 <= N_block; i += 2, x += 4, y += ((ptrdiff_t)incY * 4)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -6798,7 +6798,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -6820,9 +6820,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4), y += 4){
+                    for(i = 0; i + 2 <= N_block; i += 2, x += ((ptrdiff_t)incX * 4), y += 4){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -6915,12 +6915,12 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4), y += 4){
+                    for(i = 0; i + 2 <= N_block; i += 2, x += ((ptrdiff_t)incX * 4), y += 4){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -7013,7 +7013,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }
                 }else{
@@ -7033,11 +7033,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4), y += (incY * 4)){
+                    for(i = 0; i + 2 <= N_block; i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -7128,14 +7128,14 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4), y += (incY * 4)){
+                    for(i = 0; i + 2 <= N_block; i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -7226,7 +7226,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -7239,27 +7239,27 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0];
               ((double*)priZ)[1] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 2));
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_2, cons_tmp));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_3, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 4));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1];
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 4));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_2, cons_tmp));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_3, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 6));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1];
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 6));
               s_3_0 = _mm_add_pd(s_3_0, _mm_sub_pd(s_3_1, cons_tmp));
               s_3_0 = _mm_add_pd(s_3_0, _mm_sub_pd(s_3_2, cons_tmp));
               s_3_0 = _mm_add_pd(s_3_0, _mm_sub_pd(s_3_3, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_3_0);
-              ((double*)priZ)[(incpriZ * 6)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 6) + 1)] = cons_buffer_tmp[1];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 6)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)] = cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -7279,7 +7279,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               __m128d s_buffer[(binned_DBMAXFOLD * 8)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 8)] = s_buffer[((j * 8) + 1)] = s_buffer[((j * 8) + 2)] = s_buffer[((j * 8) + 3)] = s_buffer[((j * 8) + 4)] = s_buffer[((j * 8) + 5)] = s_buffer[((j * 8) + 6)] = s_buffer[((j * 8) + 7)] = _mm_loadu_pd(((double*)priZ) + (incpriZ * j * 2));
+                s_buffer[(j * 8)] = s_buffer[((j * 8) + 1)] = s_buffer[((j * 8) + 2)] = s_buffer[((j * 8) + 3)] = s_buffer[((j * 8) + 4)] = s_buffer[((j * 8) + 5)] = s_buffer[((j * 8) + 6)] = s_buffer[((j * 8) + 7)] = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * j * 2));
               }
 
               if(incX == 1){
@@ -7657,15 +7657,15 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       x_3 = _mm_loadu_pd(((double*)x) + 6);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
-                      y_3 = _mm_loadu_pd(((double*)y) + (incY * 6));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
+                      y_3 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 6));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_6 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -7770,7 +7770,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -7826,7 +7826,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -7864,18 +7864,18 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       x_3 = _mm_loadu_pd(((double*)x) + 6);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
-                      y_3 = _mm_loadu_pd(((double*)y) + (incY * 6));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
+                      y_3 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 6));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_6 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -7940,7 +7940,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -7972,7 +7972,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -7994,7 +7994,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -8016,11 +8016,11 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                      x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                      x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -8127,7 +8127,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -8185,7 +8185,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -8223,14 +8223,14 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                      x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                      x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -8297,7 +8297,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
@@ -8331,7 +8331,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -8353,7 +8353,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }
                 }else{
@@ -8373,15 +8373,15 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                      x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                      x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
-                      y_3 = _mm_loadu_pd(((double*)y) + (incY * 6));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
+                      y_3 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 6));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_6 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -8484,9 +8484,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -8542,7 +8542,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -8580,18 +8580,18 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                      x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                      x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
-                      y_3 = _mm_loadu_pd(((double*)y) + (incY * 6));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
+                      y_3 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 6));
                       x_4 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_5 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_6 = _mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3));
@@ -8654,9 +8654,9 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3));
                       x_3 = _mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3));
                       x_0 = _mm_xor_pd(_mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0)), conj_mask_tmp);
@@ -8688,7 +8688,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -8710,14 +8710,14 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * j * 2));
+                cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * j * 2));
                 s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_sub_pd(s_buffer[((j * 8) + 1)], cons_tmp));
                 s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_sub_pd(s_buffer[((j * 8) + 2)], cons_tmp));
                 s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_sub_pd(s_buffer[((j * 8) + 3)], cons_tmp));
@@ -8726,8 +8726,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                 s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_sub_pd(s_buffer[((j * 8) + 6)], cons_tmp));
                 s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_sub_pd(s_buffer[((j * 8) + 7)], cons_tmp));
                 _mm_store_pd(cons_buffer_tmp, s_buffer[(j * 8)]);
-                ((double*)priZ)[(incpriZ * j * 2)] = cons_buffer_tmp[0];
-                ((double*)priZ)[((incpriZ * j * 2) + 1)] = cons_buffer_tmp[1];
+                ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = cons_buffer_tmp[0];
+                ((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = cons_buffer_tmp[1];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -8758,10 +8758,10 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
 
               s_0_0 = s_0_2 = ((double*)priZ)[0];
               s_0_1 = s_0_3 = ((double*)priZ)[1];
-              s_1_0 = s_1_2 = ((double*)priZ)[(incpriZ * 2)];
-              s_1_1 = s_1_3 = ((double*)priZ)[((incpriZ * 2) + 1)];
-              s_2_0 = s_2_2 = ((double*)priZ)[(incpriZ * 4)];
-              s_2_1 = s_2_3 = ((double*)priZ)[((incpriZ * 4) + 1)];
+              s_1_0 = s_1_2 = ((double*)priZ)[((ptrdiff_t)incpriZ * 2)];
+              s_1_1 = s_1_3 = ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)];
+              s_2_0 = s_2_2 = ((double*)priZ)[((ptrdiff_t)incpriZ * 4)];
+              s_2_1 = s_2_3 = ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)];
 
               if(incX == 1){
                 if(incY == 1){
@@ -8960,7 +8960,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9032,7 +9032,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9132,7 +9132,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9204,7 +9204,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9302,7 +9302,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9374,7 +9374,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9455,18 +9455,18 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               s_0_1 = s_0_1 + (s_0_3 - cons_tmp);
               ((double*)priZ)[0] = s_0_0;
               ((double*)priZ)[1] = s_0_1;
-              cons_tmp = ((double*)priZ)[(incpriZ * 2)];
+              cons_tmp = ((double*)priZ)[((ptrdiff_t)incpriZ * 2)];
               s_1_0 = s_1_0 + (s_1_2 - cons_tmp);
-              cons_tmp = ((double*)priZ)[((incpriZ * 2) + 1)];
+              cons_tmp = ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)];
               s_1_1 = s_1_1 + (s_1_3 - cons_tmp);
-              ((double*)priZ)[(incpriZ * 2)] = s_1_0;
-              ((double*)priZ)[((incpriZ * 2) + 1)] = s_1_1;
-              cons_tmp = ((double*)priZ)[(incpriZ * 4)];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = s_1_0;
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = s_1_1;
+              cons_tmp = ((double*)priZ)[((ptrdiff_t)incpriZ * 4)];
               s_2_0 = s_2_0 + (s_2_2 - cons_tmp);
-              cons_tmp = ((double*)priZ)[((incpriZ * 4) + 1)];
+              cons_tmp = ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)];
               s_2_1 = s_2_1 + (s_2_3 - cons_tmp);
-              ((double*)priZ)[(incpriZ * 4)] = s_2_0;
-              ((double*)priZ)[((incpriZ * 4) + 1)] = s_2_1;
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 4)] = s_2_0;
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = s_2_1;
 
             }
             break;
@@ -9483,8 +9483,8 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               double s_buffer[(binned_DBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 2)] = ((double*)priZ)[(incpriZ * j * 2)];
-                s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 3)] = ((double*)priZ)[((incpriZ * j * 2) + 1)];
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 2)] = ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)];
+                s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 3)] = ((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)];
               }
 
               if(incX == 1){
@@ -9676,7 +9676,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9758,7 +9758,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9840,7 +9840,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -9922,7 +9922,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10002,7 +10002,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10084,7 +10084,7 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10142,12 +10142,12 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
               }
 
               for(j = 0; j < fold; j += 1){
-                cons_tmp = ((double*)priZ)[(incpriZ * j * 2)];
+                cons_tmp = ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)];
                 s_buffer[(j * 4)] = s_buffer[(j * 4)] + (s_buffer[((j * 4) + 2)] - cons_tmp);
-                cons_tmp = ((double*)priZ)[((incpriZ * j * 2) + 1)];
+                cons_tmp = ((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)];
                 s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 1)] + (s_buffer[((j * 4) + 3)] - cons_tmp);
-                ((double*)priZ)[(incpriZ * j * 2)] = s_buffer[(j * 4)];
-                ((double*)priZ)[((incpriZ * j * 2) + 1)] = s_buffer[((j * 4) + 1)];
+                ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = s_buffer[(j * 4)];
+                ((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = s_buffer[((j * 4) + 1)];
               }
 
             }
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index 3bbc58d..3b314e7 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -156,7 +156,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               __m256d s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ)));
-              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 2)));
+              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 2)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -421,13 +421,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += ((ptrdiff_t)incY * 12)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_4 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_5 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF)), nconj_mask_tmp);
@@ -469,8 +469,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -496,11 +496,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(_mm256_add_pd(x_3, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -514,7 +514,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -532,16 +532,16 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += (incY * 12)){
+                    for(i = 0; i + 6 <= N_block; i += 6, x += 12, y += ((ptrdiff_t)incY * 12)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_4 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_5 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF)), nconj_mask_tmp);
@@ -583,8 +583,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -610,11 +610,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(x_3, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -628,7 +628,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -646,7 +646,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -668,10 +668,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += 12){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       y_2 = _mm256_loadu_pd(((double*)y) + 8);
@@ -714,8 +714,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -743,10 +743,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(_mm256_add_pd(x_3, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -761,7 +761,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -779,13 +779,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += 12){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += 12){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       y_2 = _mm256_loadu_pd(((double*)y) + 8);
@@ -828,8 +828,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -857,10 +857,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(x_3, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -875,7 +875,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -893,7 +893,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -913,13 +913,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += ((ptrdiff_t)incY * 12)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_4 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_5 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF)), nconj_mask_tmp);
@@ -959,10 +959,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -988,11 +988,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(_mm256_add_pd(x_3, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -1006,7 +1006,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1024,16 +1024,16 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12), y += (incY * 12)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
+                    for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12), y += ((ptrdiff_t)incY * 12)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_4 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_5 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF)), nconj_mask_tmp);
@@ -1073,10 +1073,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_5, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -1102,11 +1102,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm256_add_pd(x_3, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -1120,7 +1120,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1138,7 +1138,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -1150,12 +1150,12 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((double*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 2) + 1)], ((double*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1176,8 +1176,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               __m256d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ)));
-              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 4)));
+              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 4)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -1414,11 +1414,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -1463,7 +1463,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -1485,7 +1485,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1511,14 +1511,14 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -1563,7 +1563,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -1585,7 +1585,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1611,7 +1611,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -1633,9 +1633,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1681,7 +1681,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -1704,7 +1704,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1730,12 +1730,12 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -1781,7 +1781,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -1804,7 +1804,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1830,7 +1830,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -1850,11 +1850,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -1898,8 +1898,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -1921,7 +1921,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1947,14 +1947,14 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -1998,8 +1998,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -2021,7 +2021,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2047,7 +2047,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -2059,18 +2059,18 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((double*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 2) + 1)], ((double*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 4) + 1)], ((double*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 4)));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -2092,9 +2092,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               __m256d s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ)));
-              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 2)));
-              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 4)));
-              s_3_0 = s_3_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * 6)));
+              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 2)));
+              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 4)));
+              s_3_0 = s_3_1 = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * 6)));
 
               if(incX == 1){
                 if(incY == 1){
@@ -2395,11 +2395,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -2460,7 +2460,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -2490,7 +2490,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2524,14 +2524,14 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -2592,7 +2592,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -2622,7 +2622,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2656,7 +2656,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -2678,9 +2678,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -2742,7 +2742,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -2773,7 +2773,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2807,12 +2807,12 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -2874,7 +2874,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -2905,7 +2905,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2939,7 +2939,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -2959,11 +2959,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -3023,8 +3023,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -3054,7 +3054,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -3088,14 +3088,14 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -3155,8 +3155,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -3186,7 +3186,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -3220,7 +3220,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm256_add_pd(x_1, q_1);
                       s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -3232,24 +3232,24 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((double*)priZ)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 2) + 1)], ((double*)priZ)[(incpriZ * 2)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 2)));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 2)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2)));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 4) + 1)], ((double*)priZ)[(incpriZ * 4)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 4)));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 4)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 4)));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(((double*)priZ)[((incpriZ * 6) + 1)], ((double*)priZ)[(incpriZ * 6)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * 6)));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * 6)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 6)));
               s_3_0 = _mm256_add_pd(s_3_0, _mm256_sub_pd(s_3_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_3_0);
-              ((double*)priZ)[(incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priZ)[((incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3269,7 +3269,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               __m256d s_buffer[(binned_DBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + (incpriZ * j * 2)));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm256_broadcast_pd((__m128d *)(((double*)priZ) + ((ptrdiff_t)incpriZ * j * 2)));
               }
 
               if(incX == 1){
@@ -3707,15 +3707,15 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += ((ptrdiff_t)incY * 16)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
                       x_3 = _mm256_loadu_pd(((double*)x) + 12);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
-                      y_3 = _mm256_set_pd(((double*)y)[((incY * 14) + 1)], ((double*)y)[(incY * 14)], ((double*)y)[((incY * 12) + 1)], ((double*)y)[(incY * 12)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 14) + 1)], ((double*)y)[((ptrdiff_t)incY * 14)], ((double*)y)[(((ptrdiff_t)incY * 12) + 1)], ((double*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_5 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_6 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF)), nconj_mask_tmp);
@@ -3825,8 +3825,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -3880,11 +3880,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -3912,7 +3912,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -3944,18 +3944,18 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += (incY * 16)){
+                    for(i = 0; i + 8 <= N_block; i += 8, x += 16, y += ((ptrdiff_t)incY * 16)){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
                       x_2 = _mm256_loadu_pd(((double*)x) + 8);
                       x_3 = _mm256_loadu_pd(((double*)x) + 12);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
-                      y_3 = _mm256_set_pd(((double*)y)[((incY * 14) + 1)], ((double*)y)[(incY * 14)], ((double*)y)[((incY * 12) + 1)], ((double*)y)[(incY * 12)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 14) + 1)], ((double*)y)[((ptrdiff_t)incY * 14)], ((double*)y)[(((ptrdiff_t)incY * 12) + 1)], ((double*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_5 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_6 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF)), nconj_mask_tmp);
@@ -4025,8 +4025,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     if(i + 4 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
                       x_1 = _mm256_loadu_pd(((double*)x) + 4);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -4060,11 +4060,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += 8, y += (incY * 8);
+                      i += 4, x += 8, y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm256_loadu_pd(((double*)x));
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -4082,7 +4082,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -4104,7 +4104,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += ((N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
@@ -4126,11 +4126,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                      x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += 16){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       y_2 = _mm256_loadu_pd(((double*)y) + 8);
@@ -4242,8 +4242,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -4299,10 +4299,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -4331,7 +4331,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -4363,14 +4363,14 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += 16){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                      x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += 16){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       y_2 = _mm256_loadu_pd(((double*)y) + 8);
@@ -4442,8 +4442,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       y_1 = _mm256_loadu_pd(((double*)y) + 4);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
@@ -4479,10 +4479,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += 8;
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += 8;
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
                       y_0 = _mm256_loadu_pd(((double*)y));
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -4501,7 +4501,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -4523,7 +4523,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += ((N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((N_block - i) * 2);
                     }
                   }
                 }else{
@@ -4543,15 +4543,15 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                      x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
-                      y_3 = _mm256_set_pd(((double*)y)[((incY * 14) + 1)], ((double*)y)[(incY * 14)], ((double*)y)[((incY * 12) + 1)], ((double*)y)[(incY * 12)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 14) + 1)], ((double*)y)[((ptrdiff_t)incY * 14)], ((double*)y)[(((ptrdiff_t)incY * 12) + 1)], ((double*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_5 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_6 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF)), nconj_mask_tmp);
@@ -4659,10 +4659,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -4716,11 +4716,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -4748,7 +4748,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -4780,18 +4780,18 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }else{
-                    for(i = 0; i + 8 <= N_block; i += 8, x += (incX * 16), y += (incY * 16)){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                      x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
-                      y_2 = _mm256_set_pd(((double*)y)[((incY * 10) + 1)], ((double*)y)[(incY * 10)], ((double*)y)[((incY * 8) + 1)], ((double*)y)[(incY * 8)]);
-                      y_3 = _mm256_set_pd(((double*)y)[((incY * 14) + 1)], ((double*)y)[(incY * 14)], ((double*)y)[((incY * 12) + 1)], ((double*)y)[(incY * 12)]);
+                    for(i = 0; i + 8 <= N_block; i += 8, x += ((ptrdiff_t)incX * 16), y += ((ptrdiff_t)incY * 16)){
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                      x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
+                      y_2 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 10) + 1)], ((double*)y)[((ptrdiff_t)incY * 10)], ((double*)y)[(((ptrdiff_t)incY * 8) + 1)], ((double*)y)[((ptrdiff_t)incY * 8)]);
+                      y_3 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 14) + 1)], ((double*)y)[((ptrdiff_t)incY * 14)], ((double*)y)[(((ptrdiff_t)incY * 12) + 1)], ((double*)y)[((ptrdiff_t)incY * 12)]);
                       x_4 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_5 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_6 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_2, 0x5), _mm256_permute_pd(y_2, 0xF)), nconj_mask_tmp);
@@ -4859,10 +4859,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_7, blp_mask_tmp));
                     }
                     if(i + 4 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
-                      y_1 = _mm256_set_pd(((double*)y)[((incY * 6) + 1)], ((double*)y)[(incY * 6)], ((double*)y)[((incY * 4) + 1)], ((double*)y)[(incY * 4)]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      y_1 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 6) + 1)], ((double*)y)[((ptrdiff_t)incY * 6)], ((double*)y)[(((ptrdiff_t)incY * 4) + 1)], ((double*)y)[((ptrdiff_t)incY * 4)]);
                       x_2 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_3 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_1, 0x5), _mm256_permute_pd(y_1, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
@@ -4896,11 +4896,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_3, blp_mask_tmp));
-                      i += 4, x += (incX * 8), y += (incY * 8);
+                      i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8);
                     }
                     if(i + 2 <= N_block){
-                      x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                      y_0 = _mm256_set_pd(((double*)y)[((incY * 2) + 1)], ((double*)y)[(incY * 2)], ((double*)y)[1], ((double*)y)[0]);
+                      x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                      y_0 = _mm256_set_pd(((double*)y)[(((ptrdiff_t)incY * 2) + 1)], ((double*)y)[((ptrdiff_t)incY * 2)], ((double*)y)[1], ((double*)y)[0]);
                       x_1 = _mm256_xor_pd(_mm256_mul_pd(_mm256_permute_pd(x_0, 0x5), _mm256_permute_pd(y_0, 0xF)), nconj_mask_tmp);
                       x_0 = _mm256_mul_pd(x_0, _mm256_permute_pd(y_0, 0x0));
 
@@ -4918,7 +4918,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i < N_block){
                       x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -4940,19 +4940,19 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 2) + 1)] = _mm256_add_pd(s_buffer[((j * 2) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                      x += (incX * (N_block - i) * 2), y += (incY * (N_block - i) * 2);
+                      x += ((ptrdiff_t)incX * (N_block - i) * 2), y += ((ptrdiff_t)incY * (N_block - i) * 2);
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = _mm256_sub_pd(s_buffer[(j * 2)], _mm256_set_pd(((double*)priZ)[((incpriZ * j * 2) + 1)], ((double*)priZ)[(incpriZ * j * 2)], 0, 0));
-                cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + (incpriZ * j * 2)));
+                s_buffer[(j * 2)] = _mm256_sub_pd(s_buffer[(j * 2)], _mm256_set_pd(((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)], ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)], 0, 0));
+                cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * j * 2)));
                 s_buffer[(j * 2)] = _mm256_add_pd(s_buffer[(j * 2)], _mm256_sub_pd(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm256_store_pd(cons_buffer_tmp, s_buffer[(j * 2)]);
-                ((double*)priZ)[(incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-                ((double*)priZ)[((incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+                ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+                ((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -4997,7 +4997,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               __m128d s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm_loadu_pd(((double*)priZ));
-              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 2));
+              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 2));
 
               if(incX == 1){
                 if(incY == 1){
@@ -5226,13 +5226,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -5275,7 +5275,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -5301,7 +5301,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(_mm_add_pd(x_3, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -5319,16 +5319,16 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(_mm_add_pd(x_1, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -5371,7 +5371,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -5397,7 +5397,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -5415,7 +5415,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -5437,10 +5437,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -5484,7 +5484,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -5512,7 +5512,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(_mm_add_pd(x_3, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -5530,13 +5530,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(_mm_add_pd(x_1, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -5580,7 +5580,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -5608,7 +5608,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -5626,7 +5626,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }
                 }else{
@@ -5646,13 +5646,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -5693,9 +5693,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -5721,7 +5721,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(_mm_add_pd(x_3, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -5739,16 +5739,16 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(_mm_add_pd(x_1, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -5789,9 +5789,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -5817,7 +5817,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -5835,7 +5835,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -5846,11 +5846,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0];
               ((double*)priZ)[1] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 2));
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -5871,8 +5871,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               __m128d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm_loadu_pd(((double*)priZ));
-              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 2));
-              s_2_0 = s_2_1 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 4));
+              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 2));
+              s_2_0 = s_2_1 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 4));
 
               if(incX == 1){
                 if(incY == 1){
@@ -6197,13 +6197,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -6270,7 +6270,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -6312,7 +6312,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -6338,16 +6338,16 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -6414,7 +6414,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -6456,7 +6456,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -6482,7 +6482,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -6504,10 +6504,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -6575,7 +6575,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -6619,7 +6619,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -6645,13 +6645,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -6719,7 +6719,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -6763,7 +6763,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -6789,7 +6789,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }
                 }else{
@@ -6809,13 +6809,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -6880,9 +6880,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -6924,7 +6924,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -6950,16 +6950,16 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -7024,9 +7024,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -7068,7 +7068,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -7094,7 +7094,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -7105,16 +7105,16 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0];
               ((double*)priZ)[1] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 2));
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 4));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1];
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 4));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -7136,9 +7136,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               __m128d s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = _mm_loadu_pd(((double*)priZ));
-              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 2));
-              s_2_0 = s_2_1 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 4));
-              s_3_0 = s_3_1 = _mm_loadu_pd(((double*)priZ) + (incpriZ * 6));
+              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 2));
+              s_2_0 = s_2_1 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 4));
+              s_3_0 = s_3_1 = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * 6));
 
               if(incX == 1){
                 if(incY == 1){
@@ -7559,13 +7559,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -7656,7 +7656,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -7714,7 +7714,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -7748,16 +7748,16 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += 6, y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -7848,7 +7848,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -7906,7 +7906,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -7940,7 +7940,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -7962,10 +7962,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -8057,7 +8057,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -8117,7 +8117,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -8151,13 +8151,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += 6){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += 6){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -8249,7 +8249,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -8309,7 +8309,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -8343,7 +8343,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }
                 }else{
@@ -8363,13 +8363,13 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -8458,9 +8458,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -8518,7 +8518,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -8552,16 +8552,16 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 3 <= N_block; i += 3, x += (incX * 6), y += (incY * 6)){
+                    for(i = 0; i + 3 <= N_block; i += 3, x += ((ptrdiff_t)incX * 6), y += ((ptrdiff_t)incY * 6)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -8650,9 +8650,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -8710,7 +8710,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_3 = _mm_add_pd(x_3, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_2, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -8744,7 +8744,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_1 = _mm_add_pd(x_1, q_1);
                       s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                       s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -8755,21 +8755,21 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priZ)[0] = cons_buffer_tmp[0];
               ((double*)priZ)[1] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 2));
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 2));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priZ)[(incpriZ * 2)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 2) + 1)] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 4));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = cons_buffer_tmp[1];
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 4));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priZ)[(incpriZ * 4)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 4) + 1)] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * 6));
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 4)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = cons_buffer_tmp[1];
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * 6));
               s_3_0 = _mm_add_pd(s_3_0, _mm_sub_pd(s_3_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_3_0);
-              ((double*)priZ)[(incpriZ * 6)] = cons_buffer_tmp[0];
-              ((double*)priZ)[((incpriZ * 6) + 1)] = cons_buffer_tmp[1];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 6)] = cons_buffer_tmp[0];
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 6) + 1)] = cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -8789,7 +8789,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               __m128d s_buffer[(binned_DBMAXFOLD * 8)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 8)] = s_buffer[((j * 8) + 1)] = s_buffer[((j * 8) + 2)] = s_buffer[((j * 8) + 3)] = s_buffer[((j * 8) + 4)] = s_buffer[((j * 8) + 5)] = s_buffer[((j * 8) + 6)] = s_buffer[((j * 8) + 7)] = _mm_loadu_pd(((double*)priZ) + (incpriZ * j * 2));
+                s_buffer[(j * 8)] = s_buffer[((j * 8) + 1)] = s_buffer[((j * 8) + 2)] = s_buffer[((j * 8) + 3)] = s_buffer[((j * 8) + 4)] = s_buffer[((j * 8) + 5)] = s_buffer[((j * 8) + 6)] = s_buffer[((j * 8) + 7)] = _mm_loadu_pd(((double*)priZ) + ((ptrdiff_t)incpriZ * j * 2));
               }
 
               if(incX == 1){
@@ -9167,15 +9167,15 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       x_3 = _mm_loadu_pd(((double*)x) + 6);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
-                      y_3 = _mm_loadu_pd(((double*)y) + (incY * 6));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
+                      y_3 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 6));
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_6 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -9280,7 +9280,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -9336,7 +9336,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -9374,18 +9374,18 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += 8, y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       x_2 = _mm_loadu_pd(((double*)x) + 4);
                       x_3 = _mm_loadu_pd(((double*)x) + 6);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
-                      y_3 = _mm_loadu_pd(((double*)y) + (incY * 6));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
+                      y_3 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 6));
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_6 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -9450,7 +9450,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       x_0 = _mm_loadu_pd(((double*)x));
                       x_1 = _mm_loadu_pd(((double*)x) + 2);
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -9482,7 +9482,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += 4, y += (incY * 4);
+                      i += 2, x += 4, y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -9504,7 +9504,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += 2, y += (incY * 2);
+                      i += 1, x += 2, y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
@@ -9526,11 +9526,11 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                      x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                      x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -9637,7 +9637,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -9695,7 +9695,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -9733,14 +9733,14 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += 8){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += 8){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                      x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                      x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       y_2 = _mm_loadu_pd(((double*)y) + 4);
@@ -9807,7 +9807,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
                       y_1 = _mm_loadu_pd(((double*)y) + 2);
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
@@ -9841,7 +9841,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += 4;
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += 4;
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -9863,7 +9863,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += 2;
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += 2;
                     }
                   }
                 }else{
@@ -9883,15 +9883,15 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                       expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                     }
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                      x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                      x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
-                      y_3 = _mm_loadu_pd(((double*)y) + (incY * 6));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
+                      y_3 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 6));
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_6 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -9994,9 +9994,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -10052,7 +10052,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -10090,18 +10090,18 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }else{
-                    for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8), y += (incY * 8)){
+                    for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8), y += ((ptrdiff_t)incY * 8)){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                      x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                      x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                      x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                      x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
-                      y_2 = _mm_loadu_pd(((double*)y) + (incY * 4));
-                      y_3 = _mm_loadu_pd(((double*)y) + (incY * 6));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
+                      y_2 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 4));
+                      y_3 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 6));
                       x_4 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_5 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_6 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_2, x_2, 0x1), _mm_shuffle_pd(y_2, y_2, 0x3)), nconj_mask_tmp);
@@ -10164,9 +10164,9 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                     }
                     if(i + 2 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
-                      x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                      x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
                       y_0 = _mm_loadu_pd(((double*)y));
-                      y_1 = _mm_loadu_pd(((double*)y) + (incY * 2));
+                      y_1 = _mm_loadu_pd(((double*)y) + ((ptrdiff_t)incY * 2));
                       x_2 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_0, x_0, 0x1), _mm_shuffle_pd(y_0, y_0, 0x3)), nconj_mask_tmp);
                       x_3 = _mm_xor_pd(_mm_mul_pd(_mm_shuffle_pd(x_1, x_1, 0x1), _mm_shuffle_pd(y_1, y_1, 0x3)), nconj_mask_tmp);
                       x_0 = _mm_mul_pd(x_0, _mm_shuffle_pd(y_0, y_0, 0x0));
@@ -10198,7 +10198,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
                       s_buffer[((j * 8) + 2)] = _mm_add_pd(s_buffer[((j * 8) + 2)], _mm_or_pd(x_2, blp_mask_tmp));
                       s_buffer[((j * 8) + 3)] = _mm_add_pd(s_buffer[((j * 8) + 3)], _mm_or_pd(x_3, blp_mask_tmp));
-                      i += 2, x += (incX * 4), y += (incY * 4);
+                      i += 2, x += ((ptrdiff_t)incX * 4), y += ((ptrdiff_t)incY * 4);
                     }
                     if(i + 1 <= N_block){
                       x_0 = _mm_loadu_pd(((double*)x));
@@ -10220,14 +10220,14 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       }
                       s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_or_pd(x_0, blp_mask_tmp));
                       s_buffer[((j * 8) + 1)] = _mm_add_pd(s_buffer[((j * 8) + 1)], _mm_or_pd(x_1, blp_mask_tmp));
-                      i += 1, x += (incX * 2), y += (incY * 2);
+                      i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2);
                     }
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + (incpriZ * j * 2));
+                cons_tmp = _mm_loadu_pd(((double*)((double*)priZ)) + ((ptrdiff_t)incpriZ * j * 2));
                 s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_sub_pd(s_buffer[((j * 8) + 1)], cons_tmp));
                 s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_sub_pd(s_buffer[((j * 8) + 2)], cons_tmp));
                 s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_sub_pd(s_buffer[((j * 8) + 3)], cons_tmp));
@@ -10236,8 +10236,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                 s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_sub_pd(s_buffer[((j * 8) + 6)], cons_tmp));
                 s_buffer[(j * 8)] = _mm_add_pd(s_buffer[(j * 8)], _mm_sub_pd(s_buffer[((j * 8) + 7)], cons_tmp));
                 _mm_store_pd(cons_buffer_tmp, s_buffer[(j * 8)]);
-                ((double*)priZ)[(incpriZ * j * 2)] = cons_buffer_tmp[0];
-                ((double*)priZ)[((incpriZ * j * 2) + 1)] = cons_buffer_tmp[1];
+                ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = cons_buffer_tmp[0];
+                ((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = cons_buffer_tmp[1];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -10268,10 +10268,10 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
 
               s_0_0 = s_0_2 = ((double*)priZ)[0];
               s_0_1 = s_0_3 = ((double*)priZ)[1];
-              s_1_0 = s_1_2 = ((double*)priZ)[(incpriZ * 2)];
-              s_1_1 = s_1_3 = ((double*)priZ)[((incpriZ * 2) + 1)];
-              s_2_0 = s_2_2 = ((double*)priZ)[(incpriZ * 4)];
-              s_2_1 = s_2_3 = ((double*)priZ)[((incpriZ * 4) + 1)];
+              s_1_0 = s_1_2 = ((double*)priZ)[((ptrdiff_t)incpriZ * 2)];
+              s_1_1 = s_1_3 = ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)];
+              s_2_0 = s_2_2 = ((double*)priZ)[((ptrdiff_t)incpriZ * 4)];
+              s_2_1 = s_2_3 = ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)];
 
               if(incX == 1){
                 if(incY == 1){
@@ -10470,7 +10470,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10542,7 +10542,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10642,7 +10642,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10714,7 +10714,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10812,7 +10812,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10884,7 +10884,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_2_3 = s_2_3 + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -10965,18 +10965,18 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               s_0_1 = s_0_1 + (s_0_3 - cons_tmp);
               ((double*)priZ)[0] = s_0_0;
               ((double*)priZ)[1] = s_0_1;
-              cons_tmp = ((double*)priZ)[(incpriZ * 2)];
+              cons_tmp = ((double*)priZ)[((ptrdiff_t)incpriZ * 2)];
               s_1_0 = s_1_0 + (s_1_2 - cons_tmp);
-              cons_tmp = ((double*)priZ)[((incpriZ * 2) + 1)];
+              cons_tmp = ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)];
               s_1_1 = s_1_1 + (s_1_3 - cons_tmp);
-              ((double*)priZ)[(incpriZ * 2)] = s_1_0;
-              ((double*)priZ)[((incpriZ * 2) + 1)] = s_1_1;
-              cons_tmp = ((double*)priZ)[(incpriZ * 4)];
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 2)] = s_1_0;
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 2) + 1)] = s_1_1;
+              cons_tmp = ((double*)priZ)[((ptrdiff_t)incpriZ * 4)];
               s_2_0 = s_2_0 + (s_2_2 - cons_tmp);
-              cons_tmp = ((double*)priZ)[((incpriZ * 4) + 1)];
+              cons_tmp = ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)];
               s_2_1 = s_2_1 + (s_2_3 - cons_tmp);
-              ((double*)priZ)[(incpriZ * 4)] = s_2_0;
-              ((double*)priZ)[((incpriZ * 4) + 1)] = s_2_1;
+              ((double*)priZ)[((ptrdiff_t)incpriZ * 4)] = s_2_0;
+              ((double*)priZ)[(((ptrdiff_t)incpriZ * 4) + 1)] = s_2_1;
 
             }
             break;
@@ -10993,8 +10993,8 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               double s_buffer[(binned_DBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 2)] = ((double*)priZ)[(incpriZ * j * 2)];
-                s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 3)] = ((double*)priZ)[((incpriZ * j * 2) + 1)];
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 2)] = ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)];
+                s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 3)] = ((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)];
               }
 
               if(incX == 1){
@@ -11186,7 +11186,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11268,7 +11268,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += 2, y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11350,7 +11350,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11432,7 +11432,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += 2){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += 2){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11512,7 +11512,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       expansion_mask_0 = 0.0;
                       expansion_mask_1 = binned_DMEXPANSION * 0.5;
                     }
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11594,7 +11594,7 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
                       s_buffer[((j * 4) + 3)] = s_buffer[((j * 4) + 3)] + blp_tmp.d;
                     }
                   }else{
-                    for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2), y += (incY * 2)){
+                    for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2), y += ((ptrdiff_t)incY * 2)){
                       x_0 = ((double*)x)[0];
                       x_1 = ((double*)x)[1];
                       y_0 = ((double*)y)[0];
@@ -11652,12 +11652,12 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
               }
 
               for(j = 0; j < fold; j += 1){
-                cons_tmp = ((double*)priZ)[(incpriZ * j * 2)];
+                cons_tmp = ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)];
                 s_buffer[(j * 4)] = s_buffer[(j * 4)] + (s_buffer[((j * 4) + 2)] - cons_tmp);
-                cons_tmp = ((double*)priZ)[((incpriZ * j * 2) + 1)];
+                cons_tmp = ((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)];
                 s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 1)] + (s_buffer[((j * 4) + 3)] - cons_tmp);
-                ((double*)priZ)[(incpriZ * j * 2)] = s_buffer[(j * 4)];
-                ((double*)priZ)[((incpriZ * j * 2) + 1)] = s_buffer[((j * 4) + 1)];
+                ((double*)priZ)[((ptrdiff_t)incpriZ * j * 2)] = s_buffer[(j * 4)];
+                ((double*)priZ)[(((ptrdiff_t)incpriZ * j * 2) + 1)] = s_buffer[((j * 4) + 1)];
               }
 
             }
diff --git a/src/binnedBLAS/zmzsum.ccog b/src/binnedBLAS/zmzsum.ccog
index 03d64d7..bb2b74d 100644
--- a/src/binnedBLAS/zmzsum.ccog
+++ b/src/binnedBLAS/zmzsum.ccog
@@ -133,7 +133,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               __m256d s_1_0, s_1_1, s_1_2, s_1_3;
 
               s_0_0 = s_0_1 = s_0_2 = s_0_3 = _mm256_broadcast_pd((__m128d *)(((double*)priY)));
-              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + (incpriY * 2)));
+              s_1_0 = s_1_1 = s_1_2 = s_1_3 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + ((ptrdiff_t)incpriY * 2)));
 
               if(incX == 1){
                 if(binned_dmindex0(priY) || binned_dmindex0(priY + 1)){
@@ -401,15 +401,15 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -453,10 +453,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -478,11 +478,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     s_1_2 = _mm256_add_pd(s_1_2, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -494,17 +494,17 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm256_add_pd(_mm256_add_pd(x_1, _mm256_mul_pd(q_1, expansion_0)), _mm256_mul_pd(q_1, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(x_0, compression_0), blp_mask_tmp));
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(_mm256_add_pd(x_0, _mm256_mul_pd(q_0, expansion_0)), _mm256_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -514,18 +514,18 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(_mm256_add_pd(x_0, _mm256_mul_pd(q_0, expansion_0)), _mm256_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -569,10 +569,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -594,11 +594,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
                     s_1_2 = _mm256_add_pd(s_1_2, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_1_3 = _mm256_add_pd(s_1_3, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -610,17 +610,17 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm256_add_pd(s_1_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -630,7 +630,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_pd(q_0, s_0_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_1_0 = _mm256_add_pd(s_1_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -643,14 +643,14 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priY)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((double*)priY)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priY)[((incpriY * 2) + 1)], ((double*)priY)[(incpriY * 2)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + (incpriY * 2)));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((double*)priY)[((ptrdiff_t)incpriY * 2)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 2)));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_2, cons_tmp));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_3, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priY)[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((double*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -670,8 +670,8 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               __m256d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY)));
-              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + (incpriY * 2)));
-              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + (incpriY * 4)));
+              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + ((ptrdiff_t)incpriY * 2)));
+              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + ((ptrdiff_t)incpriY * 4)));
 
               if(incX == 1){
                 if(binned_dmindex0(priY) || binned_dmindex0(priY + 1)){
@@ -1067,15 +1067,15 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1151,10 +1151,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1192,11 +1192,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm256_add_pd(x_3, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1216,10 +1216,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(x_0, compression_0), blp_mask_tmp));
@@ -1230,7 +1230,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1244,18 +1244,18 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 16 <= N_block; i += 16, x += (incX * 32)){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
+                  for(i = 0; i + 16 <= N_block; i += 16, x += ((ptrdiff_t)incX * 32)){
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1331,10 +1331,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_7, blp_mask_tmp));
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1372,11 +1372,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm256_add_pd(x_3, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -1396,10 +1396,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_2_1 = _mm256_add_pd(s_2_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(x_0, blp_mask_tmp));
@@ -1410,7 +1410,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -1424,7 +1424,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_pd(q_0, s_1_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_2_0 = _mm256_add_pd(s_2_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -1435,18 +1435,18 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priY)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((double*)priY)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priY)[((incpriY * 2) + 1)], ((double*)priY)[(incpriY * 2)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + (incpriY * 2)));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((double*)priY)[((ptrdiff_t)incpriY * 2)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 2)));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priY)[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priY)[((incpriY * 4) + 1)], ((double*)priY)[(incpriY * 4)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + (incpriY * 4)));
+              ((double*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priY)[(((ptrdiff_t)incpriY * 4) + 1)], ((double*)priY)[((ptrdiff_t)incpriY * 4)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 4)));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priY)[(incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priY)[((incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((double*)priY)[((ptrdiff_t)incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -1467,9 +1467,9 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               __m256d s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY)));
-              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + (incpriY * 2)));
-              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + (incpriY * 4)));
-              s_3_0 = s_3_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + (incpriY * 6)));
+              s_1_0 = s_1_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + ((ptrdiff_t)incpriY * 2)));
+              s_2_0 = s_2_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + ((ptrdiff_t)incpriY * 4)));
+              s_3_0 = s_3_1 = _mm256_broadcast_pd((__m128d *)(((double*)priY) + ((ptrdiff_t)incpriY * 6)));
 
               if(incX == 1){
                 if(binned_dmindex0(priY) || binned_dmindex0(priY + 1)){
@@ -2337,19 +2337,19 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
-                    x_8 = _mm256_set_pd(((double*)x)[((incX * 34) + 1)], ((double*)x)[(incX * 34)], ((double*)x)[((incX * 32) + 1)], ((double*)x)[(incX * 32)]);
-                    x_9 = _mm256_set_pd(((double*)x)[((incX * 38) + 1)], ((double*)x)[(incX * 38)], ((double*)x)[((incX * 36) + 1)], ((double*)x)[(incX * 36)]);
-                    x_10 = _mm256_set_pd(((double*)x)[((incX * 42) + 1)], ((double*)x)[(incX * 42)], ((double*)x)[((incX * 40) + 1)], ((double*)x)[(incX * 40)]);
-                    x_11 = _mm256_set_pd(((double*)x)[((incX * 46) + 1)], ((double*)x)[(incX * 46)], ((double*)x)[((incX * 44) + 1)], ((double*)x)[(incX * 44)]);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
+                    x_8 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 34) + 1)], ((double*)x)[((ptrdiff_t)incX * 34)], ((double*)x)[(((ptrdiff_t)incX * 32) + 1)], ((double*)x)[((ptrdiff_t)incX * 32)]);
+                    x_9 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 38) + 1)], ((double*)x)[((ptrdiff_t)incX * 38)], ((double*)x)[(((ptrdiff_t)incX * 36) + 1)], ((double*)x)[((ptrdiff_t)incX * 36)]);
+                    x_10 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 42) + 1)], ((double*)x)[((ptrdiff_t)incX * 42)], ((double*)x)[(((ptrdiff_t)incX * 40) + 1)], ((double*)x)[((ptrdiff_t)incX * 40)]);
+                    x_11 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 46) + 1)], ((double*)x)[((ptrdiff_t)incX * 46)], ((double*)x)[(((ptrdiff_t)incX * 44) + 1)], ((double*)x)[((ptrdiff_t)incX * 44)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2509,14 +2509,14 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2622,13 +2622,13 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_7 = _mm256_add_pd(x_7, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2682,11 +2682,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm256_add_pd(x_3, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2714,10 +2714,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(_mm256_mul_pd(x_0, compression_0), blp_mask_tmp));
@@ -2732,7 +2732,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -2750,22 +2750,22 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
-                    x_8 = _mm256_set_pd(((double*)x)[((incX * 34) + 1)], ((double*)x)[(incX * 34)], ((double*)x)[((incX * 32) + 1)], ((double*)x)[(incX * 32)]);
-                    x_9 = _mm256_set_pd(((double*)x)[((incX * 38) + 1)], ((double*)x)[(incX * 38)], ((double*)x)[((incX * 36) + 1)], ((double*)x)[(incX * 36)]);
-                    x_10 = _mm256_set_pd(((double*)x)[((incX * 42) + 1)], ((double*)x)[(incX * 42)], ((double*)x)[((incX * 40) + 1)], ((double*)x)[(incX * 40)]);
-                    x_11 = _mm256_set_pd(((double*)x)[((incX * 46) + 1)], ((double*)x)[(incX * 46)], ((double*)x)[((incX * 44) + 1)], ((double*)x)[(incX * 44)]);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
+                    x_8 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 34) + 1)], ((double*)x)[((ptrdiff_t)incX * 34)], ((double*)x)[(((ptrdiff_t)incX * 32) + 1)], ((double*)x)[((ptrdiff_t)incX * 32)]);
+                    x_9 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 38) + 1)], ((double*)x)[((ptrdiff_t)incX * 38)], ((double*)x)[(((ptrdiff_t)incX * 36) + 1)], ((double*)x)[((ptrdiff_t)incX * 36)]);
+                    x_10 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 42) + 1)], ((double*)x)[((ptrdiff_t)incX * 42)], ((double*)x)[(((ptrdiff_t)incX * 40) + 1)], ((double*)x)[((ptrdiff_t)incX * 40)]);
+                    x_11 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 46) + 1)], ((double*)x)[((ptrdiff_t)incX * 46)], ((double*)x)[(((ptrdiff_t)incX * 44) + 1)], ((double*)x)[((ptrdiff_t)incX * 44)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -2925,14 +2925,14 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_11, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3038,13 +3038,13 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_7 = _mm256_add_pd(x_7, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_6, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3098,11 +3098,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm256_add_pd(x_3, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_2, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -3130,10 +3130,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm256_add_pd(x_1, q_1);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
                     s_3_1 = _mm256_add_pd(s_3_1, _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     q_0 = s_0_0;
                     s_0_0 = _mm256_add_pd(s_0_0, _mm256_or_pd(x_0, blp_mask_tmp));
@@ -3148,7 +3148,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -3166,7 +3166,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm256_sub_pd(q_0, s_2_0);
                     x_0 = _mm256_add_pd(x_0, q_0);
                     s_3_0 = _mm256_add_pd(s_3_0, _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
@@ -3177,24 +3177,24 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               _mm256_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priY)[0] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
               ((double*)priY)[1] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priY)[((incpriY * 2) + 1)], ((double*)priY)[(incpriY * 2)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + (incpriY * 2)));
+              s_1_0 = _mm256_sub_pd(s_1_0, _mm256_set_pd(((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)], ((double*)priY)[((ptrdiff_t)incpriY * 2)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 2)));
               s_1_0 = _mm256_add_pd(s_1_0, _mm256_sub_pd(s_1_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priY)[(incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priY)[((incpriY * 4) + 1)], ((double*)priY)[(incpriY * 4)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + (incpriY * 4)));
+              ((double*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_2_0 = _mm256_sub_pd(s_2_0, _mm256_set_pd(((double*)priY)[(((ptrdiff_t)incpriY * 4) + 1)], ((double*)priY)[((ptrdiff_t)incpriY * 4)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 4)));
               s_2_0 = _mm256_add_pd(s_2_0, _mm256_sub_pd(s_2_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priY)[(incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priY)[((incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
-              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(((double*)priY)[((incpriY * 6) + 1)], ((double*)priY)[(incpriY * 6)], 0, 0));
-              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + (incpriY * 6)));
+              ((double*)priY)[((ptrdiff_t)incpriY * 4)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 4) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              s_3_0 = _mm256_sub_pd(s_3_0, _mm256_set_pd(((double*)priY)[(((ptrdiff_t)incpriY * 6) + 1)], ((double*)priY)[((ptrdiff_t)incpriY * 6)], 0, 0));
+              cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 6)));
               s_3_0 = _mm256_add_pd(s_3_0, _mm256_sub_pd(s_3_1, cons_tmp));
               _mm256_store_pd(cons_buffer_tmp, s_3_0);
-              ((double*)priY)[(incpriY * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-              ((double*)priY)[((incpriY * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+              ((double*)priY)[((ptrdiff_t)incpriY * 6)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 6) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -3213,7 +3213,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               __m256d s_buffer[(binned_DBMAXFOLD * 4)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm256_broadcast_pd((__m128d *)(((double*)priY) + (incpriY * j * 2)));
+                s_buffer[(j * 4)] = s_buffer[((j * 4) + 1)] = s_buffer[((j * 4) + 2)] = s_buffer[((j * 4) + 3)] = _mm256_broadcast_pd((__m128d *)(((double*)priY) + ((ptrdiff_t)incpriY * j * 2)));
               }
 
               if(incX == 1){
@@ -3874,19 +3874,19 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 1.0, binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm256_set_pd(binned_DMEXPANSION * 0.5, 0.0, binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
-                    x_8 = _mm256_set_pd(((double*)x)[((incX * 34) + 1)], ((double*)x)[(incX * 34)], ((double*)x)[((incX * 32) + 1)], ((double*)x)[(incX * 32)]);
-                    x_9 = _mm256_set_pd(((double*)x)[((incX * 38) + 1)], ((double*)x)[(incX * 38)], ((double*)x)[((incX * 36) + 1)], ((double*)x)[(incX * 36)]);
-                    x_10 = _mm256_set_pd(((double*)x)[((incX * 42) + 1)], ((double*)x)[(incX * 42)], ((double*)x)[((incX * 40) + 1)], ((double*)x)[(incX * 40)]);
-                    x_11 = _mm256_set_pd(((double*)x)[((incX * 46) + 1)], ((double*)x)[(incX * 46)], ((double*)x)[((incX * 44) + 1)], ((double*)x)[(incX * 44)]);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
+                    x_8 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 34) + 1)], ((double*)x)[((ptrdiff_t)incX * 34)], ((double*)x)[(((ptrdiff_t)incX * 32) + 1)], ((double*)x)[((ptrdiff_t)incX * 32)]);
+                    x_9 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 38) + 1)], ((double*)x)[((ptrdiff_t)incX * 38)], ((double*)x)[(((ptrdiff_t)incX * 36) + 1)], ((double*)x)[((ptrdiff_t)incX * 36)]);
+                    x_10 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 42) + 1)], ((double*)x)[((ptrdiff_t)incX * 42)], ((double*)x)[(((ptrdiff_t)incX * 40) + 1)], ((double*)x)[((ptrdiff_t)incX * 40)]);
+                    x_11 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 46) + 1)], ((double*)x)[((ptrdiff_t)incX * 46)], ((double*)x)[(((ptrdiff_t)incX * 44) + 1)], ((double*)x)[((ptrdiff_t)incX * 44)]);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -4028,14 +4028,14 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_11, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -4129,13 +4129,13 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_5, blp_mask_tmp));
                     s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -4183,11 +4183,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
                     s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -4215,10 +4215,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     }
                     s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     s_0 = s_buffer[0];
                     q_0 = _mm256_add_pd(s_0, _mm256_or_pd(_mm256_mul_pd(x_0, compression_0), blp_mask_tmp));
@@ -4236,7 +4236,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm256_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -4257,22 +4257,22 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm256_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }else{
-                  for(i = 0; i + 24 <= N_block; i += 24, x += (incX * 48)){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
-                    x_8 = _mm256_set_pd(((double*)x)[((incX * 34) + 1)], ((double*)x)[(incX * 34)], ((double*)x)[((incX * 32) + 1)], ((double*)x)[(incX * 32)]);
-                    x_9 = _mm256_set_pd(((double*)x)[((incX * 38) + 1)], ((double*)x)[(incX * 38)], ((double*)x)[((incX * 36) + 1)], ((double*)x)[(incX * 36)]);
-                    x_10 = _mm256_set_pd(((double*)x)[((incX * 42) + 1)], ((double*)x)[(incX * 42)], ((double*)x)[((incX * 40) + 1)], ((double*)x)[(incX * 40)]);
-                    x_11 = _mm256_set_pd(((double*)x)[((incX * 46) + 1)], ((double*)x)[(incX * 46)], ((double*)x)[((incX * 44) + 1)], ((double*)x)[(incX * 44)]);
+                  for(i = 0; i + 24 <= N_block; i += 24, x += ((ptrdiff_t)incX * 48)){
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
+                    x_8 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 34) + 1)], ((double*)x)[((ptrdiff_t)incX * 34)], ((double*)x)[(((ptrdiff_t)incX * 32) + 1)], ((double*)x)[((ptrdiff_t)incX * 32)]);
+                    x_9 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 38) + 1)], ((double*)x)[((ptrdiff_t)incX * 38)], ((double*)x)[(((ptrdiff_t)incX * 36) + 1)], ((double*)x)[((ptrdiff_t)incX * 36)]);
+                    x_10 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 42) + 1)], ((double*)x)[((ptrdiff_t)incX * 42)], ((double*)x)[(((ptrdiff_t)incX * 40) + 1)], ((double*)x)[((ptrdiff_t)incX * 40)]);
+                    x_11 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 46) + 1)], ((double*)x)[((ptrdiff_t)incX * 46)], ((double*)x)[(((ptrdiff_t)incX * 44) + 1)], ((double*)x)[((ptrdiff_t)incX * 44)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -4354,14 +4354,14 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_11, blp_mask_tmp));
                   }
                   if(i + 16 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
-                    x_4 = _mm256_set_pd(((double*)x)[((incX * 18) + 1)], ((double*)x)[(incX * 18)], ((double*)x)[((incX * 16) + 1)], ((double*)x)[(incX * 16)]);
-                    x_5 = _mm256_set_pd(((double*)x)[((incX * 22) + 1)], ((double*)x)[(incX * 22)], ((double*)x)[((incX * 20) + 1)], ((double*)x)[(incX * 20)]);
-                    x_6 = _mm256_set_pd(((double*)x)[((incX * 26) + 1)], ((double*)x)[(incX * 26)], ((double*)x)[((incX * 24) + 1)], ((double*)x)[(incX * 24)]);
-                    x_7 = _mm256_set_pd(((double*)x)[((incX * 30) + 1)], ((double*)x)[(incX * 30)], ((double*)x)[((incX * 28) + 1)], ((double*)x)[(incX * 28)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
+                    x_4 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 18) + 1)], ((double*)x)[((ptrdiff_t)incX * 18)], ((double*)x)[(((ptrdiff_t)incX * 16) + 1)], ((double*)x)[((ptrdiff_t)incX * 16)]);
+                    x_5 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 22) + 1)], ((double*)x)[((ptrdiff_t)incX * 22)], ((double*)x)[(((ptrdiff_t)incX * 20) + 1)], ((double*)x)[((ptrdiff_t)incX * 20)]);
+                    x_6 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 26) + 1)], ((double*)x)[((ptrdiff_t)incX * 26)], ((double*)x)[(((ptrdiff_t)incX * 24) + 1)], ((double*)x)[((ptrdiff_t)incX * 24)]);
+                    x_7 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 30) + 1)], ((double*)x)[((ptrdiff_t)incX * 30)], ((double*)x)[(((ptrdiff_t)incX * 28) + 1)], ((double*)x)[((ptrdiff_t)incX * 28)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -4415,13 +4415,13 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_5, blp_mask_tmp));
                     s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_6, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_7, blp_mask_tmp));
-                    i += 16, x += (incX * 32);
+                    i += 16, x += ((ptrdiff_t)incX * 32);
                   }
                   if(i + 8 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
-                    x_2 = _mm256_set_pd(((double*)x)[((incX * 10) + 1)], ((double*)x)[(incX * 10)], ((double*)x)[((incX * 8) + 1)], ((double*)x)[(incX * 8)]);
-                    x_3 = _mm256_set_pd(((double*)x)[((incX * 14) + 1)], ((double*)x)[(incX * 14)], ((double*)x)[((incX * 12) + 1)], ((double*)x)[(incX * 12)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
+                    x_2 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 10) + 1)], ((double*)x)[((ptrdiff_t)incX * 10)], ((double*)x)[(((ptrdiff_t)incX * 8) + 1)], ((double*)x)[((ptrdiff_t)incX * 8)]);
+                    x_3 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 14) + 1)], ((double*)x)[((ptrdiff_t)incX * 14)], ((double*)x)[(((ptrdiff_t)incX * 12) + 1)], ((double*)x)[((ptrdiff_t)incX * 12)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -4449,11 +4449,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
                     s_buffer[((j * 4) + 2)] = _mm256_add_pd(s_buffer[((j * 4) + 2)], _mm256_or_pd(x_2, blp_mask_tmp));
                     s_buffer[((j * 4) + 3)] = _mm256_add_pd(s_buffer[((j * 4) + 3)], _mm256_or_pd(x_3, blp_mask_tmp));
-                    i += 8, x += (incX * 16);
+                    i += 8, x += ((ptrdiff_t)incX * 16);
                   }
                   if(i + 4 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
-                    x_1 = _mm256_set_pd(((double*)x)[((incX * 6) + 1)], ((double*)x)[(incX * 6)], ((double*)x)[((incX * 4) + 1)], ((double*)x)[(incX * 4)]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_1 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 6) + 1)], ((double*)x)[((ptrdiff_t)incX * 6)], ((double*)x)[(((ptrdiff_t)incX * 4) + 1)], ((double*)x)[((ptrdiff_t)incX * 4)]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -4469,10 +4469,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     }
                     s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
                     s_buffer[((j * 4) + 1)] = _mm256_add_pd(s_buffer[((j * 4) + 1)], _mm256_or_pd(x_1, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
-                    x_0 = _mm256_set_pd(((double*)x)[((incX * 2) + 1)], ((double*)x)[(incX * 2)], ((double*)x)[1], ((double*)x)[0]);
+                    x_0 = _mm256_set_pd(((double*)x)[(((ptrdiff_t)incX * 2) + 1)], ((double*)x)[((ptrdiff_t)incX * 2)], ((double*)x)[1], ((double*)x)[0]);
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 4)];
@@ -4482,7 +4482,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm256_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i < N_block){
                     x_0 = _mm256_set_pd(0, 0, ((double*)x)[1], ((double*)x)[0]);
@@ -4495,20 +4495,20 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm256_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_or_pd(x_0, blp_mask_tmp));
-                    x += (incX * (N_block - i) * 2);
+                    x += ((ptrdiff_t)incX * (N_block - i) * 2);
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 4)] = _mm256_sub_pd(s_buffer[(j * 4)], _mm256_set_pd(((double*)priY)[((incpriY * j * 2) + 1)], ((double*)priY)[(incpriY * j * 2)], 0, 0));
-                cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + (incpriY * j * 2)));
+                s_buffer[(j * 4)] = _mm256_sub_pd(s_buffer[(j * 4)], _mm256_set_pd(((double*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)], ((double*)priY)[((ptrdiff_t)incpriY * j * 2)], 0, 0));
+                cons_tmp = _mm256_broadcast_pd((__m128d *)(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * j * 2)));
                 s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_sub_pd(s_buffer[((j * 4) + 1)], cons_tmp));
                 s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_sub_pd(s_buffer[((j * 4) + 2)], cons_tmp));
                 s_buffer[(j * 4)] = _mm256_add_pd(s_buffer[(j * 4)], _mm256_sub_pd(s_buffer[((j * 4) + 3)], cons_tmp));
                 _mm256_store_pd(cons_buffer_tmp, s_buffer[(j * 4)]);
-                ((double*)priY)[(incpriY * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
-                ((double*)priY)[((incpriY * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
+                ((double*)priY)[((ptrdiff_t)incpriY * j * 2)] = cons_buffer_tmp[0] + cons_buffer_tmp[2];
+                ((double*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)] = cons_buffer_tmp[1] + cons_buffer_tmp[3];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -4545,7 +4545,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               __m128d s_1_0, s_1_1;
 
               s_0_0 = s_0_1 = _mm_loadu_pd(((double*)priY));
-              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priY) + (incpriY * 2));
+              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priY) + ((ptrdiff_t)incpriY * 2));
 
               if(incX == 1){
                 if(binned_dmindex0(priY) || binned_dmindex0(priY + 1)){
@@ -4689,11 +4689,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8)){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                    x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                    x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                    x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                    x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4718,7 +4718,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4730,7 +4730,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_pd(_mm_add_pd(x_1, _mm_mul_pd(q_1, expansion_0)), _mm_mul_pd(q_1, expansion_mask_0));
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
@@ -4740,14 +4740,14 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     x_0 = _mm_add_pd(_mm_add_pd(x_0, _mm_mul_pd(q_0, expansion_0)), _mm_mul_pd(q_0, expansion_mask_0));
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 4 <= N_block; i += 4, x += (incX * 8)){
+                  for(i = 0; i + 4 <= N_block; i += 4, x += ((ptrdiff_t)incX * 8)){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                    x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                    x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                    x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                    x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4772,7 +4772,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -4784,7 +4784,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_pd(x_1, q_1);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_1_1 = _mm_add_pd(s_1_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
@@ -4794,7 +4794,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_pd(q_0, s_0_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_1_0 = _mm_add_pd(s_1_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -4804,11 +4804,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priY)[0] = cons_buffer_tmp[0];
               ((double*)priY)[1] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + (incpriY * 2));
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 2));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priY)[(incpriY * 2)] = cons_buffer_tmp[0];
-              ((double*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1];
+              ((double*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -4828,8 +4828,8 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               __m128d s_2_0, s_2_1;
 
               s_0_0 = s_0_1 = _mm_loadu_pd(((double*)priY));
-              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priY) + (incpriY * 2));
-              s_2_0 = s_2_1 = _mm_loadu_pd(((double*)priY) + (incpriY * 4));
+              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priY) + ((ptrdiff_t)incpriY * 2));
+              s_2_0 = s_2_1 = _mm_loadu_pd(((double*)priY) + ((ptrdiff_t)incpriY * 4));
 
               if(incX == 1){
                 if(binned_dmindex0(priY) || binned_dmindex0(priY + 1)){
@@ -5157,13 +5157,13 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12)){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                    x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                    x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
-                    x_4 = _mm_loadu_pd(((double*)x) + (incX * 8));
-                    x_5 = _mm_loadu_pd(((double*)x) + (incX * 10));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                    x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                    x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
+                    x_4 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8));
+                    x_5 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5222,9 +5222,9 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                    x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                    x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                    x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                    x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5262,11 +5262,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm_add_pd(x_3, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5286,7 +5286,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_pd(x_1, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
@@ -5300,16 +5300,16 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12)){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                    x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                    x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
-                    x_4 = _mm_loadu_pd(((double*)x) + (incX * 8));
-                    x_5 = _mm_loadu_pd(((double*)x) + (incX * 10));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                    x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                    x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
+                    x_4 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8));
+                    x_5 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5368,9 +5368,9 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                    x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                    x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                    x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                    x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5408,11 +5408,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm_add_pd(x_3, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -5432,7 +5432,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_pd(x_1, q_1);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_2_1 = _mm_add_pd(s_2_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
@@ -5446,7 +5446,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_pd(q_0, s_1_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_2_0 = _mm_add_pd(s_2_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -5456,16 +5456,16 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priY)[0] = cons_buffer_tmp[0];
               ((double*)priY)[1] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + (incpriY * 2));
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 2));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priY)[(incpriY * 2)] = cons_buffer_tmp[0];
-              ((double*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + (incpriY * 4));
+              ((double*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1];
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 4));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priY)[(incpriY * 4)] = cons_buffer_tmp[0];
-              ((double*)priY)[((incpriY * 4) + 1)] = cons_buffer_tmp[1];
+              ((double*)priY)[((ptrdiff_t)incpriY * 4)] = cons_buffer_tmp[0];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 4) + 1)] = cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -5486,9 +5486,9 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               __m128d s_3_0, s_3_1;
 
               s_0_0 = s_0_1 = _mm_loadu_pd(((double*)priY));
-              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priY) + (incpriY * 2));
-              s_2_0 = s_2_1 = _mm_loadu_pd(((double*)priY) + (incpriY * 4));
-              s_3_0 = s_3_1 = _mm_loadu_pd(((double*)priY) + (incpriY * 6));
+              s_1_0 = s_1_1 = _mm_loadu_pd(((double*)priY) + ((ptrdiff_t)incpriY * 2));
+              s_2_0 = s_2_1 = _mm_loadu_pd(((double*)priY) + ((ptrdiff_t)incpriY * 4));
+              s_3_0 = s_3_1 = _mm_loadu_pd(((double*)priY) + ((ptrdiff_t)incpriY * 6));
 
               if(incX == 1){
                 if(binned_dmindex0(priY) || binned_dmindex0(priY + 1)){
@@ -5920,13 +5920,13 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12)){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                    x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                    x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
-                    x_4 = _mm_loadu_pd(((double*)x) + (incX * 8));
-                    x_5 = _mm_loadu_pd(((double*)x) + (incX * 10));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                    x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                    x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
+                    x_4 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8));
+                    x_5 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6009,9 +6009,9 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                    x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                    x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                    x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                    x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6065,11 +6065,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm_add_pd(x_3, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6097,7 +6097,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_pd(x_1, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
@@ -6115,16 +6115,16 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 6 <= N_block; i += 6, x += (incX * 12)){
+                  for(i = 0; i + 6 <= N_block; i += 6, x += ((ptrdiff_t)incX * 12)){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                    x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                    x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
-                    x_4 = _mm_loadu_pd(((double*)x) + (incX * 8));
-                    x_5 = _mm_loadu_pd(((double*)x) + (incX * 10));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                    x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                    x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
+                    x_4 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 8));
+                    x_5 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 10));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6207,9 +6207,9 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                   }
                   if(i + 4 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
-                    x_2 = _mm_loadu_pd(((double*)x) + (incX * 4));
-                    x_3 = _mm_loadu_pd(((double*)x) + (incX * 6));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
+                    x_2 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 4));
+                    x_3 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 6));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6263,11 +6263,11 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_3 = _mm_add_pd(x_3, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_2, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_3, blp_mask_tmp));
-                    i += 4, x += (incX * 8);
+                    i += 4, x += ((ptrdiff_t)incX * 8);
                   }
                   if(i + 2 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
 
                     q_0 = s_0_0;
                     q_1 = s_0_1;
@@ -6295,7 +6295,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     x_1 = _mm_add_pd(x_1, q_1);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
                     s_3_1 = _mm_add_pd(s_3_1, _mm_or_pd(x_1, blp_mask_tmp));
-                    i += 2, x += (incX * 4);
+                    i += 2, x += ((ptrdiff_t)incX * 4);
                   }
                   if(i + 1 <= N_block){
                     x_0 = _mm_loadu_pd(((double*)x));
@@ -6313,7 +6313,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     q_0 = _mm_sub_pd(q_0, s_2_0);
                     x_0 = _mm_add_pd(x_0, q_0);
                     s_3_0 = _mm_add_pd(s_3_0, _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
@@ -6323,21 +6323,21 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               _mm_store_pd(cons_buffer_tmp, s_0_0);
               ((double*)priY)[0] = cons_buffer_tmp[0];
               ((double*)priY)[1] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + (incpriY * 2));
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 2));
               s_1_0 = _mm_add_pd(s_1_0, _mm_sub_pd(s_1_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_1_0);
-              ((double*)priY)[(incpriY * 2)] = cons_buffer_tmp[0];
-              ((double*)priY)[((incpriY * 2) + 1)] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + (incpriY * 4));
+              ((double*)priY)[((ptrdiff_t)incpriY * 2)] = cons_buffer_tmp[0];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = cons_buffer_tmp[1];
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 4));
               s_2_0 = _mm_add_pd(s_2_0, _mm_sub_pd(s_2_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_2_0);
-              ((double*)priY)[(incpriY * 4)] = cons_buffer_tmp[0];
-              ((double*)priY)[((incpriY * 4) + 1)] = cons_buffer_tmp[1];
-              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + (incpriY * 6));
+              ((double*)priY)[((ptrdiff_t)incpriY * 4)] = cons_buffer_tmp[0];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 4) + 1)] = cons_buffer_tmp[1];
+              cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * 6));
               s_3_0 = _mm_add_pd(s_3_0, _mm_sub_pd(s_3_1, cons_tmp));
               _mm_store_pd(cons_buffer_tmp, s_3_0);
-              ((double*)priY)[(incpriY * 6)] = cons_buffer_tmp[0];
-              ((double*)priY)[((incpriY * 6) + 1)] = cons_buffer_tmp[1];
+              ((double*)priY)[((ptrdiff_t)incpriY * 6)] = cons_buffer_tmp[0];
+              ((double*)priY)[(((ptrdiff_t)incpriY * 6) + 1)] = cons_buffer_tmp[1];
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
                 _mm_setcsr(SIMD_daz_ftz_old_tmp);
@@ -6356,7 +6356,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               __m128d s_buffer[(binned_DBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm_loadu_pd(((double*)priY) + (incpriY * j * 2));
+                s_buffer[(j * 2)] = s_buffer[((j * 2) + 1)] = _mm_loadu_pd(((double*)priY) + ((ptrdiff_t)incpriY * j * 2));
               }
 
               if(incX == 1){
@@ -6475,9 +6475,9 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 1.0);
                     expansion_mask_0 = _mm_set_pd(binned_DMEXPANSION * 0.5, 0.0);
                   }
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
+                  for(i = 0; i + 2 <= N_block; i += 2, x += ((ptrdiff_t)incX * 4)){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
 
                     s_0 = s_buffer[0];
                     s_1 = s_buffer[1];
@@ -6521,12 +6521,12 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }else{
-                  for(i = 0; i + 2 <= N_block; i += 2, x += (incX * 4)){
+                  for(i = 0; i + 2 <= N_block; i += 2, x += ((ptrdiff_t)incX * 4)){
                     x_0 = _mm_loadu_pd(((double*)x));
-                    x_1 = _mm_loadu_pd(((double*)x) + (incX * 2));
+                    x_1 = _mm_loadu_pd(((double*)x) + ((ptrdiff_t)incX * 2));
 
                     for(j = 0; j < fold - 1; j++){
                       s_0 = s_buffer[(j * 2)];
@@ -6554,17 +6554,17 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                       x_0 = _mm_add_pd(x_0, q_0);
                     }
                     s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_or_pd(x_0, blp_mask_tmp));
-                    i += 1, x += (incX * 2);
+                    i += 1, x += ((ptrdiff_t)incX * 2);
                   }
                 }
               }
 
               for(j = 0; j < fold; j += 1){
-                cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + (incpriY * j * 2));
+                cons_tmp = _mm_loadu_pd(((double*)((double*)priY)) + ((ptrdiff_t)incpriY * j * 2));
                 s_buffer[(j * 2)] = _mm_add_pd(s_buffer[(j * 2)], _mm_sub_pd(s_buffer[((j * 2) + 1)], cons_tmp));
                 _mm_store_pd(cons_buffer_tmp, s_buffer[(j * 2)]);
-                ((double*)priY)[(incpriY * j * 2)] = cons_buffer_tmp[0];
-                ((double*)priY)[((incpriY * j * 2) + 1)] = cons_buffer_tmp[1];
+                ((double*)priY)[((ptrdiff_t)incpriY * j * 2)] = cons_buffer_tmp[0];
+                ((double*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)] = cons_buffer_tmp[1];
               }
 
               if(SIMD_daz_ftz_new_tmp != SIMD_daz_ftz_old_tmp){
@@ -6594,10 +6594,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
 
               s_0_0 = ((double*)priY)[0];
               s_0_1 = ((double*)priY)[1];
-              s_1_0 = ((double*)priY)[(incpriY * 2)];
-              s_1_1 = ((double*)priY)[((incpriY * 2) + 1)];
-              s_2_0 = ((double*)priY)[(incpriY * 4)];
-              s_2_1 = ((double*)priY)[((incpriY * 4) + 1)];
+              s_1_0 = ((double*)priY)[((ptrdiff_t)incpriY * 2)];
+              s_1_1 = ((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)];
+              s_2_0 = ((double*)priY)[((ptrdiff_t)incpriY * 4)];
+              s_2_1 = ((double*)priY)[(((ptrdiff_t)incpriY * 4) + 1)];
 
               if(incX == 1){
                 if(binned_dmindex0(priY) || binned_dmindex0(priY + 1)){
@@ -6723,7 +6723,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -6759,7 +6759,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_2_1 = s_2_1 + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -6799,10 +6799,10 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
 
               ((double*)priY)[0] = s_0_0;
               ((double*)priY)[1] = s_0_1;
-              ((double*)priY)[(incpriY * 2)] = s_1_0;
-              ((double*)priY)[((incpriY * 2) + 1)] = s_1_1;
-              ((double*)priY)[(incpriY * 4)] = s_2_0;
-              ((double*)priY)[((incpriY * 4) + 1)] = s_2_1;
+              ((double*)priY)[((ptrdiff_t)incpriY * 2)] = s_1_0;
+              ((double*)priY)[(((ptrdiff_t)incpriY * 2) + 1)] = s_1_1;
+              ((double*)priY)[((ptrdiff_t)incpriY * 4)] = s_2_0;
+              ((double*)priY)[(((ptrdiff_t)incpriY * 4) + 1)] = s_2_1;
 
             }
             break;
@@ -6818,8 +6818,8 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               double s_buffer[(binned_DBMAXFOLD * 2)];
 
               for(j = 0; j < fold; j += 1){
-                s_buffer[(j * 2)] = ((double*)priY)[(incpriY * j * 2)];
-                s_buffer[((j * 2) + 1)] = ((double*)priY)[((incpriY * j * 2) + 1)];
+                s_buffer[(j * 2)] = ((double*)priY)[((ptrdiff_t)incpriY * j * 2)];
+                s_buffer[((j * 2) + 1)] = ((double*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)];
               }
 
               if(incX == 1){
@@ -6944,7 +6944,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     expansion_mask_0 = 0.0;
                     expansion_mask_1 = binned_DMEXPANSION * 0.5;
                   }
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -6986,7 +6986,7 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
                     s_buffer[((j * 2) + 1)] = s_buffer[((j * 2) + 1)] + blp_tmp.d;
                   }
                 }else{
-                  for(i = 0; i + 1 <= N_block; i += 1, x += (incX * 2)){
+                  for(i = 0; i + 1 <= N_block; i += 1, x += ((ptrdiff_t)incX * 2)){
                     x_0 = ((double*)x)[0];
                     x_1 = ((double*)x)[1];
 
@@ -7017,8 +7017,8 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
               }
 
               for(j = 0; j < fold; j += 1){
-                ((double*)priY)[(incpriY * j * 2)] = s_buffer[(j * 2)];
-                ((double*)priY)[((incpriY * j * 2) + 1)] = s_buffer[((j * 2) + 1)];
+                ((double*)priY)[((ptrdiff_t)incpriY * j * 2)] = s_buffer[(j * 2)];
+                ((double*)priY)[(((ptrdiff_t)incpriY * j * 2) + 1)] = s_buffer[((j * 2) + 1)];
               }
 
             }
-- 
2.43.0

