From 114abd23b0174e87ec80bb886cb6fe44c3345cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:15 +0000
Subject: [PATCH 1/8] fix: naive products return coefficients in [0, Q-1]

The naive NTTs use the C remainder so they produce negative values, and
the naive elementwise products propagated the sign to the final result:
naive_ntt<n>_product<k> returned coefficients in [-(Q-1), Q-1] instead of
[0, Q-1] like all the other implementations.
---
 src/naive_ntt.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/naive_ntt.c b/src/naive_ntt.c
index f7fb9b6..59201c6 100644
--- a/src/naive_ntt.c
+++ b/src/naive_ntt.c
@@ -60,6 +60,15 @@ void shuffle_with_table(int32_t *a, const uint16_t p[][2], uint32_t n) {
  * ELEMENTWISE PRODUCTS
  */
 
+/*
+ * Remainder of x modulo q, in the range [0 ... q-1] for any sign of x.
+ * - the NTT functions below use % so they may produce negative values.
+ */
+static inline int32_t mod_naive(int32_t x, int32_t q) {
+  x %= q;
+  return (x < 0) ? x + q : x;
+}
+
 /*
  * In-place product: a[i] = a[i] * p[i]
  * - a[i] and p[i] must be between 0 and Q-1
@@ -69,7 +78,7 @@ void mul_array16_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q) {
   uint32_t i;
 
   for (i=0; i<n; i++) {
-    a[i] = (a[i] * p[i]) % q;
+    a[i] = mod_naive(a[i] * p[i], q);
   }
 }
 
@@ -81,7 +90,7 @@ void mul_array_naive(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b,
   uint32_t i;
 
   for (i=0; i<n; i++) {
-    c[i] = (a[i] * b[i]) % q;
+    c[i] = mod_naive(a[i] * b[i], q);
   }
 }
 
@@ -97,7 +106,7 @@ void scalar_mul_array_naive(int32_t *a, uint32_t n, int32_t c, int32_t q) {
   uint32_t i;
 
   for (i=0; i<n; i++) {
-    a[i] = (a[i] * c) % q;
+    a[i] = mod_naive(a[i] * c, q);
   }
 }
 
-- 
2.43.0


From 91224e541b3b5d121ac826e3757961e4629e4a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:15 +0000
Subject: [PATCH 2/8] fix: bounds on red(w * x) when w is zero

max_red_mul and min_red_mul looped forever in gcd4096(0) or divided by
zero when w was 0 (a legal constant for red_scale and for the bounds of
a transform).
---
 src/red_bounds.c                         | 12 ++++++++++++
 verifier/vstte20-benchmarks/red_bounds.c | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 795beb9..064cc3c 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -107,6 +107,12 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(0 * x) is 0 for all x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +177,12 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(0 * x) is 0 for all x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
diff --git a/verifier/vstte20-benchmarks/red_bounds.c b/verifier/vstte20-benchmarks/red_bounds.c
index 795beb9..064cc3c 100644
--- a/verifier/vstte20-benchmarks/red_bounds.c
+++ b/verifier/vstte20-benchmarks/red_bounds.c
@@ -107,6 +107,12 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(0 * x) is 0 for all x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +177,12 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(0 * x) is 0 for all x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
-- 
2.43.0


From 13f851f87254c4d1e9b9abee7820ee38653950b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:16 +0000
Subject: [PATCH 3/8] fix: bounds on red(w * x) when x ranges over a
 non-symmetric interval

max_red_mul_interval and min_red_mul_interval stopped the search using
the bound |x| <= b, which is wrong when |a| > b: for x = -100000 and
-6144 <= w <= -1 the reported maximum was 0. Also, min_red_mul_interval
included w = 0 when low or high is zero, which fails its own assertions.
---
 src/red_bounds.c                         | 32 ++++++++++++++----------
 verifier/vstte20-benchmarks/red_bounds.c | 32 ++++++++++++++----------
 2 files changed, 38 insertions(+), 26 deletions(-)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 064cc3c..259fc70 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -221,10 +221,13 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
 int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *mw) {
-  int64_t r_max, x_max, w_max, r, x, w, d, l, h;
+  int64_t r_max, x_max, w_max, r, x, w, d, l, h, c;
 
   assert(a <= b && low <= high);
 
+  // c = max of |x| for a <= x <= b
+  c = (-a > b) ? -a : b;
+
   r_max = 0;
   x_max = 0;
   w_max = 0;
@@ -235,10 +238,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d = min (w*x)/2^m for |x| <= c
+    // so red(w*x) <= -d + 3*4095 for |x| <= c
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -256,8 +259,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // min of (w*x)/2^m is -(w * c)/2^m
+    d = divd(- w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -279,23 +282,26 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   * Minimum of red(x * w) for a <= x <= b and low <= w <= high
   */
 int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *wm) {
-   int64_t r_min, x_min, w_min, r, x, w, d, l, h;
+   int64_t r_min, x_min, w_min, r, x, w, d, l, h, c;
 
    assert(a <= b && low <= high);
 
+   // c = max of |x| for a <= x <= b
+   c = (-a > b) ? -a : b;
+
    r_min = 0;
    x_min = 0;
    w_min = 0;
 
    // negative values of w
    l = low < 0 ? low : 0;
-   h = high > 0 ? 0 : high + 1;
+   h = high >= 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // d = max of (w * x)/2^m
+     // -c <= x ==> w * x <= -c w ==> divd(w * x) <= divd(-w * c) ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(- w * c);
      if (-d >= r_min) {
        break;
      }
@@ -308,12 +314,12 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    }
 
    // positive values of w
-   l = low < 0 ? 0 : low - 1;
+   l = low <= 0 ? 0 : low - 1;
    h = high > 0 ? high : 0;
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(w * c); // max of (w * x)/2^m for |x| <= c
      if (-d >= r_min) {
        break;
      }
diff --git a/verifier/vstte20-benchmarks/red_bounds.c b/verifier/vstte20-benchmarks/red_bounds.c
index 064cc3c..259fc70 100644
--- a/verifier/vstte20-benchmarks/red_bounds.c
+++ b/verifier/vstte20-benchmarks/red_bounds.c
@@ -221,10 +221,13 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
 int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *mw) {
-  int64_t r_max, x_max, w_max, r, x, w, d, l, h;
+  int64_t r_max, x_max, w_max, r, x, w, d, l, h, c;
 
   assert(a <= b && low <= high);
 
+  // c = max of |x| for a <= x <= b
+  c = (-a > b) ? -a : b;
+
   r_max = 0;
   x_max = 0;
   w_max = 0;
@@ -235,10 +238,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d = min (w*x)/2^m for |x| <= c
+    // so red(w*x) <= -d + 3*4095 for |x| <= c
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -256,8 +259,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // min of (w*x)/2^m is -(w * c)/2^m
+    d = divd(- w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -279,23 +282,26 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   * Minimum of red(x * w) for a <= x <= b and low <= w <= high
   */
 int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *wm) {
-   int64_t r_min, x_min, w_min, r, x, w, d, l, h;
+   int64_t r_min, x_min, w_min, r, x, w, d, l, h, c;
 
    assert(a <= b && low <= high);
 
+   // c = max of |x| for a <= x <= b
+   c = (-a > b) ? -a : b;
+
    r_min = 0;
    x_min = 0;
    w_min = 0;
 
    // negative values of w
    l = low < 0 ? low : 0;
-   h = high > 0 ? 0 : high + 1;
+   h = high >= 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // d = max of (w * x)/2^m
+     // -c <= x ==> w * x <= -c w ==> divd(w * x) <= divd(-w * c) ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(- w * c);
      if (-d >= r_min) {
        break;
      }
@@ -308,12 +314,12 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    }
 
    // positive values of w
-   l = low < 0 ? 0 : low - 1;
+   l = low <= 0 ? 0 : low - 1;
    h = high > 0 ? high : 0;
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(w * c); // max of (w * x)/2^m for |x| <= c
      if (-d >= r_min) {
        break;
      }
-- 
2.43.0


From 6f4039f72c62c1cc20a137b55ab7dc2f17709e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:30 +0000
Subject: [PATCH 4/8] fix: overflow detection in interval addition and
 subtraction

add64, sub64 and size relied on signed overflow wrapping around. This is
undefined: optimizing compilers may remove the overflow tests.
---
 src/intervals.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/intervals.c b/src/intervals.c
index 56869c8..9c567c6 100644
--- a/src/intervals.c
+++ b/src/intervals.c
@@ -81,7 +81,8 @@ interval_t *neg(const interval_t *a) {
 static int64_t add64(int64_t x, int64_t y) {
   int64_t z;
 
-  z = x + y;
+  // the sum is computed modulo 2^64 (signed overflow is undefined)
+  z = (int64_t) ((uint64_t) x + (uint64_t) y);
   if ((x < 0 && y < 0 && z >= 0) || (x >= 0 && y >= 0 && z < 0)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" + %"PRId64"\n", x, y);
     exit(1);
@@ -93,7 +94,8 @@ static int64_t add64(int64_t x, int64_t y) {
 static int64_t sub64(int64_t x, int64_t y) {
   int64_t z;
 
-  z = x - y;
+  // the difference is computed modulo 2^64 (signed overflow is undefined)
+  z = (int64_t) ((uint64_t) x - (uint64_t) y);
   if ((x < 0 && y >= 0 && z >= 0) || (x >= 0 && y < 0 && z < 0)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" - %"PRId64"\n", x, y);
     exit(1);
@@ -107,9 +109,9 @@ static int64_t sub64(int64_t x, int64_t y) {
  */
 static uint64_t size(const interval_t *a) {
   assert(a->min <= a->max);
-  // assuming 2s complement, this gives the right answer even
-  // if there's an overflow.
-  return (uint64_t) (a->max - a->min);
+  // unsigned subtraction: this gives the right answer even
+  // if a->max - a->min does not fit in 64 bits.
+  return (uint64_t) a->max - (uint64_t) a->min;
 }
 
 /*
-- 
2.43.0


From 588a42b947f13093790449ce81dee95085ea42a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:42 +0000
Subject: [PATCH 5/8] fix: table generators fail if their output cannot be
 written

Errors reported by the file system while writing (disk full, file size
limit) were ignored: the generators exited with status 0 and left a
truncated table.
---
 src/make_bitrev_table.c                        | 18 ++++++++++++++++--
 src/make_red_tables.c                          | 18 ++++++++++++++++--
 src/make_tables.c                              | 18 ++++++++++++++++--
 .../vstte20-benchmarks/make_bitrev_table.c     | 18 ++++++++++++++++--
 verifier/vstte20-benchmarks/make_red_tables.c  | 18 ++++++++++++++++--
 verifier/vstte20-benchmarks/make_tables.c      | 18 ++++++++++++++++--
 6 files changed, 96 insertions(+), 12 deletions(-)

diff --git a/src/make_bitrev_table.c b/src/make_bitrev_table.c
index 883fb68..a7f6c30 100644
--- a/src/make_bitrev_table.c
+++ b/src/make_bitrev_table.c
@@ -122,6 +122,20 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: exit if there was an error when writing to f
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  bool failed;
+
+  failed = ferror(f);
+  if (fclose(f) != 0) failed = true;
+  if (failed) {
+    fprintf(stderr, "failed to write file 'bitrev%"PRIu32"_table.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t n, log_n;
   long x;
@@ -154,7 +168,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_declarations(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -162,7 +176,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_table(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/src/make_red_tables.c b/src/make_red_tables.c
index 45e8980..6d42d0d 100644
--- a/src/make_red_tables.c
+++ b/src/make_red_tables.c
@@ -416,6 +416,20 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: exit if there was an error when writing to f
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  bool failed;
+
+  failed = ferror(f);
+  if (fclose(f) != 0) failed = true;
+  if (failed) {
+    fprintf(stderr, "failed to write file 'ntt_red%"PRIu32"_tables.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, k, inv_k, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -500,7 +514,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -508,7 +522,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/src/make_tables.c b/src/make_tables.c
index b567de5..b5c0f27 100644
--- a/src/make_tables.c
+++ b/src/make_tables.c
@@ -355,6 +355,20 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: exit if there was an error when writing to f
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  bool failed;
+
+  failed = ferror(f);
+  if (fclose(f) != 0) failed = true;
+  if (failed) {
+    fprintf(stderr, "failed to write file 'ntt%"PRIu32"_tables.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -427,7 +441,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -435,7 +449,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_bitrev_table.c b/verifier/vstte20-benchmarks/make_bitrev_table.c
index 883fb68..a7f6c30 100644
--- a/verifier/vstte20-benchmarks/make_bitrev_table.c
+++ b/verifier/vstte20-benchmarks/make_bitrev_table.c
@@ -122,6 +122,20 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: exit if there was an error when writing to f
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  bool failed;
+
+  failed = ferror(f);
+  if (fclose(f) != 0) failed = true;
+  if (failed) {
+    fprintf(stderr, "failed to write file 'bitrev%"PRIu32"_table.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t n, log_n;
   long x;
@@ -154,7 +168,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_declarations(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -162,7 +176,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_table(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_red_tables.c b/verifier/vstte20-benchmarks/make_red_tables.c
index c500678..6279199 100644
--- a/verifier/vstte20-benchmarks/make_red_tables.c
+++ b/verifier/vstte20-benchmarks/make_red_tables.c
@@ -398,6 +398,20 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: exit if there was an error when writing to f
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  bool failed;
+
+  failed = ferror(f);
+  if (fclose(f) != 0) failed = true;
+  if (failed) {
+    fprintf(stderr, "failed to write file 'ntt_red%"PRIu32"_tables.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, k, inv_k, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -482,7 +496,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -490,7 +504,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_tables.c b/verifier/vstte20-benchmarks/make_tables.c
index 4aeef4e..2522433 100644
--- a/verifier/vstte20-benchmarks/make_tables.c
+++ b/verifier/vstte20-benchmarks/make_tables.c
@@ -355,6 +355,20 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: exit if there was an error when writing to f
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  bool failed;
+
+  failed = ferror(f);
+  if (fclose(f) != 0) failed = true;
+  if (failed) {
+    fprintf(stderr, "failed to write file 'ntt%"PRIu32"_tables.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -427,7 +441,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -435,7 +449,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
-- 
2.43.0


From 099114b0a194e9fdad94ea23bbc9ae914bdf89d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:20 +0000
Subject: [PATCH 6/8] fix: AVX2 routines ignore the upper half of the register
 holding n

The x86-64 calling convention leaves bits 32-63 of the register holding a
32bit argument unspecified. The routines used all 64 bits, so a caller that
passes a truncated 64bit size (compiled to a tail call with no extension)
made them run past the end of the array.
---
 src/ntt_asm.S | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ntt_asm.S b/src/ntt_asm.S
index 69cdf68..a850527 100644
--- a/src/ntt_asm.S
+++ b/src/ntt_asm.S
@@ -130,6 +130,7 @@ not_supported:
         .balign 16
         .global _G(reduce_array_asm)
 _G(reduce_array_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -166,6 +167,7 @@ loop0:
         .balign 16
         .global _G(reduce_array_asm2)
 _G(reduce_array_asm2):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -199,6 +201,7 @@ loop0b:
         .balign 16
         .global _G(reduce_array_twice_asm)
 _G(reduce_array_twice_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -249,6 +252,7 @@ loop1:
         .balign 16
         .global _G(reduce_array_twice_asm2)
 _G(reduce_array_twice_asm2):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -291,6 +295,7 @@ loop1b:
         .balign 16
         .global _G(correct_asm)
 _G(correct_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm3, [q_x8+rip]
         vmovdqa ymm4, [q_minus1_x8+rip]
         mov rax, rdi
@@ -337,6 +342,7 @@ loop2:
         .balign 16
         .global _G(shift_array_asm)
 _G(shift_array_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
 	vmovdqa ymm3, [q_x8+rip]
 	vmovdqa ymm4, [half_q_x8+rip]
 	mov rax, rdi
@@ -410,6 +416,7 @@ loop_shift:
         .balign 16
         .global _G(mul_reduce_array16_asm)
 _G(mul_reduce_array16_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -451,6 +458,7 @@ loop3:
         .balign 16
         .global _G(mul_reduce_array16_asm2)
 _G(mul_reduce_array16_asm2):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa    ymm5, [perm0246+rip]
         vmovdqa    ymm6, [mask+rip]
         mov        rax, rdi
@@ -495,6 +503,7 @@ loop4:
         .balign 16
         .global _G(mul_reduce_array_asm)
 _G(mul_reduce_array_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -545,6 +554,7 @@ loop5:
         .balign 16
         .global _G(scalar_mul_reduce_array_asm)
 _G(scalar_mul_reduce_array_asm):        
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -665,6 +675,7 @@ loop6:
         .balign 16
         .global _G(ntt_red_ct_rev2std_asm)
 _G(ntt_red_ct_rev2std_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -864,6 +875,7 @@ ct_r2s_done:
         .balign 16
         .global _G(mulntt_red_ct_rev2std_asm)
 _G(mulntt_red_ct_rev2std_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -961,6 +973,7 @@ mct_r2s_size8_loop2:
         .balign 16
         .global _G(ntt_red_ct_std2rev_asm)
 _G(ntt_red_ct_std2rev_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1233,6 +1246,7 @@ ct_s2r_finish_size1:
         .balign 16
         .global _G(mulntt_red_ct_std2rev_asm)
 _G(mulntt_red_ct_std2rev_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1318,6 +1332,7 @@ mct_s2r_loop_inner:
         .balign 16
         .global _G(ntt_red_gs_rev2std_asm)
 _G(ntt_red_gs_rev2std_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1549,6 +1564,7 @@ gs_r2s_done:
         .balign 16
         .global _G(nttmul_red_gs_rev2std_asm)
 _G(nttmul_red_gs_rev2std_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1749,6 +1765,7 @@ mgs_r2s_done:
         .balign 16
         .global _G(ntt_red_gs_std2rev_asm)
 _G(ntt_red_gs_std2rev_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
@@ -1941,6 +1958,7 @@ gs_s2r_finish_loop:
         .balign 16
         .global _G(nttmul_red_gs_std2rev_asm)
 _G(nttmul_red_gs_std2rev_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
-- 
2.43.0


From 4b43679de0d7dcca0cf7b31e745552a68bb1c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:11 +0000
Subject: [PATCH 7/8] fix: bound the recursion depth of sort

quick sort recursed on both parts, so an unfavourable array of 300000
elements overflowed the stack. Recurse on the smaller part only.
---
 src/sort.c                         | 34 +++++++++++++++++++-----------
 verifier/vstte20-benchmarks/sort.c | 34 +++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/sort.c b/src/sort.c
index bdec3d9..a579f0c 100644
--- a/src/sort.c
+++ b/src/sort.c
@@ -4,7 +4,7 @@
 
 #include "sort.h"
 
-static void qsort_int_array(uint64_t *a, uint32_t n);
+static uint32_t partition_int_array(uint64_t *a, uint32_t n);
 
 // insertion sort
 static void isort_int_array(uint64_t *a, uint32_t n) {
@@ -23,16 +23,29 @@ static void isort_int_array(uint64_t *a, uint32_t n) {
   }
 }
 
-static inline void sort_array(uint64_t *a, uint32_t n) {
-  if (n < 10) {
-    isort_int_array(a, n);
-  } else {
-    qsort_int_array(a, n);
+// quick sort: the recursive call is on the smallest part so that
+// the recursion depth is at most log2(n)
+static void sort_array(uint64_t *a, uint32_t n) {
+  uint32_t j;
+
+  while (n >= 10) {
+    // sort a[0...j-1] and a[j+1 .. n-1]
+    j = partition_int_array(a, n);
+    if (j < n/2) {
+      sort_array(a, j);
+      a += j + 1;
+      n -= j + 1;
+    } else {
+      sort_array(a + j + 1, n - j - 1);
+      n = j;
+    }
   }
+  isort_int_array(a, n);
 }
 
-// quick sort: requires n > 1
-static void qsort_int_array(uint64_t *a, uint32_t n) {
+// partition for quick sort: requires n > 1
+// - return j such that a[0 ... j-1] <= a[j] <= a[j+1 ... n-1]
+static uint32_t partition_int_array(uint64_t *a, uint32_t n) {
   uint32_t i, j;
   uint64_t x, y;
 
@@ -61,10 +74,7 @@ static void qsort_int_array(uint64_t *a, uint32_t n) {
   a[0] = a[j];
   a[j] = x;
 
-  // sort a[0...j-1] and a[j+1 .. n-1]
-  sort_array(a, j);
-  j++;
-  sort_array(a + j, n - j);
+  return j;
 }
 
 
diff --git a/verifier/vstte20-benchmarks/sort.c b/verifier/vstte20-benchmarks/sort.c
index bdec3d9..a579f0c 100644
--- a/verifier/vstte20-benchmarks/sort.c
+++ b/verifier/vstte20-benchmarks/sort.c
@@ -4,7 +4,7 @@
 
 #include "sort.h"
 
-static void qsort_int_array(uint64_t *a, uint32_t n);
+static uint32_t partition_int_array(uint64_t *a, uint32_t n);
 
 // insertion sort
 static void isort_int_array(uint64_t *a, uint32_t n) {
@@ -23,16 +23,29 @@ static void isort_int_array(uint64_t *a, uint32_t n) {
   }
 }
 
-static inline void sort_array(uint64_t *a, uint32_t n) {
-  if (n < 10) {
-    isort_int_array(a, n);
-  } else {
-    qsort_int_array(a, n);
+// quick sort: the recursive call is on the smallest part so that
+// the recursion depth is at most log2(n)
+static void sort_array(uint64_t *a, uint32_t n) {
+  uint32_t j;
+
+  while (n >= 10) {
+    // sort a[0...j-1] and a[j+1 .. n-1]
+    j = partition_int_array(a, n);
+    if (j < n/2) {
+      sort_array(a, j);
+      a += j + 1;
+      n -= j + 1;
+    } else {
+      sort_array(a + j + 1, n - j - 1);
+      n = j;
+    }
   }
+  isort_int_array(a, n);
 }
 
-// quick sort: requires n > 1
-static void qsort_int_array(uint64_t *a, uint32_t n) {
+// partition for quick sort: requires n > 1
+// - return j such that a[0 ... j-1] <= a[j] <= a[j+1 ... n-1]
+static uint32_t partition_int_array(uint64_t *a, uint32_t n) {
   uint32_t i, j;
   uint64_t x, y;
 
@@ -61,10 +74,7 @@ static void qsort_int_array(uint64_t *a, uint32_t n) {
   a[0] = a[j];
   a[j] = x;
 
-  // sort a[0...j-1] and a[j+1 .. n-1]
-  sort_array(a, j);
-  j++;
-  sort_array(a + j, n - j);
+  return j;
 }
 
 
-- 
2.43.0


From 9a287c14bff3cd8e8d83f7bac5a6fb4429656b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:27 +0000
Subject: [PATCH 8/8] fix: no signed overflow when reducing the largest
 admissible products

---
 src/ntt_red.c                         | 5 ++---
 verifier/vstte20-benchmarks/ntt_red.c | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ntt_red.c b/src/ntt_red.c
index deef16f..386534f 100644
--- a/src/ntt_red.c
+++ b/src/ntt_red.c
@@ -40,9 +40,8 @@ static int32_t mul_red(int32_t x, int32_t y) {
   int64_t z;
   z = (int64_t) x * y;
   assert(-8796042698752 <= z && z <= 8796093026303);
-  x = z & 4095;
-  y = z >> 12;
-  return 3 * x - y;
+  // use 64bit arithmetic: z >> 12 is 2^31 (not an int32_t) if z >= 2^43
+  return 3 * (z & 4095) - (z >> 12);
 }
 
 #if 0
diff --git a/verifier/vstte20-benchmarks/ntt_red.c b/verifier/vstte20-benchmarks/ntt_red.c
index 8cf7c4a..f227ad1 100644
--- a/verifier/vstte20-benchmarks/ntt_red.c
+++ b/verifier/vstte20-benchmarks/ntt_red.c
@@ -54,9 +54,8 @@ static int32_t mul_red(int32_t x, int32_t y) {
 #ifdef USE_CRAB_INTRINSICS
   return __CRAB_intrinsic_red(z);
 #else
-  x = z & 4095;
-  y = z >> 12;
-  return 3 * x - y;
+  // use 64bit arithmetic: z >> 12 is 2^31 (not an int32_t) if z >= 2^43
+  return 3 * (z & 4095) - (z >> 12);
 #endif   
 }
 
-- 
2.43.0

