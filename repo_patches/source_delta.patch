From 31ee4f32ffc400b5e43d728a66e3405ce3dcce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:39 +0000
Subject: [PATCH 01/27] fix: S-Log3 encoder multiplied inside the logarithm

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 28704ee..16c159a 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -669,7 +669,7 @@ class OTF
 
     static const float Y_to_SLog3(const float &x)
     {
-        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f) * 261.5f))
+        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f)) * 261.5f)
                                     : (x * (171.2102946929f - 95.f) / 0.01125f + 95.f);
         return y / 1023.f;
     }
-- 
2.43.0


From fdabebcda837f464d0524328ba6b0446f061b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:39 +0000
Subject: [PATCH 02/27] fix: sign of the OKLab M1 coefficient (published value
 is +0.0329845436)

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 16c159a..98546b7 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1419,7 +1419,7 @@ static const Tristimulus ICtCp_to_XYZ(const Tristimulus &icc)
 static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 {
     // https://bottosson.github.io/posts/oklab/
-    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
@@ -1454,7 +1454,7 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 
 static const Tristimulus OKLAB_to_XYZ(const Tristimulus &lab)
 {
-    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
              0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto    m2   = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
              0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-- 
2.43.0


From d52d93fa4090fb106bf7a73fdd2d236775589d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 03/27] fix: XYZ_to_OKLAB printed its matrices to stdout on
 every call

---
 include/colorsystem.hpp | 23 -----------------------
 1 file changed, 23 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 98546b7..f5fe076 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1423,29 +1423,6 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-    constexpr auto m1i = m1.invert();
-    constexpr auto m2i = m2.invert();
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1i[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2i[i]);
-    }
-    printf("\n");
 
     const Tristimulus lms = xyz.apply(m1);
     const Tristimulus dash(cbrtf(lms[0]), cbrtf(lms[1]), cbrtf(lms[2]));
-- 
2.43.0


From 4ed3b05c659ad027ecf8e0d91c4b66a6fd0103bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 04/27] fix: X of standard illuminant B

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f5fe076..5bb4974 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1352,7 +1352,7 @@ class Spectrum
 
 // standard illuminants
 static constexpr Tristimulus Illuminant_A(1.09850f, 1.f, 0.35585f);
-static constexpr Tristimulus Illuminant_B(1.99072f, 1.f, 0.85223f);
+static constexpr Tristimulus Illuminant_B(0.99072f, 1.f, 0.85223f);
 static constexpr Tristimulus Illuminant_C(0.98074f, 1.0f, 1.18232f);
 static constexpr Tristimulus Illuminant_D50(0.96422f, 1.0f, 0.82521f);
 static constexpr Tristimulus Illuminant_D55(0.95682f, 1.0f, 0.92149f);
-- 
2.43.0


From f7266df5b1afdba98adecc64160803cb2416ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 05/27] fix: Planckian locus y between 2222 K and 4000 K used
 the polynomial of the segment below

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 5bb4974..61b20a9 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -358,7 +358,7 @@ class Tristimulus
         const float y =
             (T < 2222.f)
                 ? ((-1.1063814f * x * x * x) - (1.34811020f * x * x) + (2.18555832f * x) - 0.20219683f)
-                : ((T < 4000.f) ? ((-1.1063814f * x * x * x - 1.34811020f * x * x + 2.18555832f * x - 0.20219683f))
+                : ((T < 4000.f) ? ((-0.9549476f * x * x * x - 1.37418593f * x * x + 2.09137015f * x - 0.16748867f))
                                 : ((3.0817580f * x * x * x - 5.87338670f * x * x + 3.75112997f * x - 0.37001483f)));
         return Tristimulus(Y, x, y).fromYxy();
     }
-- 
2.43.0


From 464702b9983db86fb333d87545626d227d1095f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 06/27] fix: first radiation constant of Planck's law (2hc^2)
 was 0.08% low

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 61b20a9..b524577 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1273,7 +1273,7 @@ class Spectrum
         static const double c    = 2.99792458e+8;  // Speed of light         m/s
         static const double k    = 1.38064880e-23; // Boltzmann constant     J/K
         static const double hc   = 1.984832809e-25;
-        static const double hcc  = 5.950379064e-17;
+        static const double hcc  = 5.955213792e-17;
         static const double hc_k = 1.438776827e-2;
         static const double arg1 = 2 * hcc;                                     // J*s*m/s*m/s                 = J*m^2/s
         static const double arg2 = (h * c) / k;                                 // J*s*m/s / (J/K) = J*m/(J/K) = m * K
-- 
2.43.0


From c91b03e24f0099e5c28388e86ad1d480032febb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 07/27] fix: Spectrum::fetch did not interpolate in the first
 interval

---
 include/colorsystem.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index b524577..2ceab94 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1246,11 +1246,14 @@ class Spectrum
         const float *sample, const int samples, const float &lo, const float &hi, const float &t)
     {
         const int   count = samples - 1;
+        if (t <= lo)
+            return sample[0];
+        if (t >= hi)
+            return sample[count];
         const int   index = (int)(count * (t - lo) / (hi - lo));
         const float l     = index * (hi - lo) / count;
         const float h     = (index + 1) * (hi - lo) / count;
         return (index >= count) ? sample[count]
-               : (index <= 0)   ? sample[0]
                                 : lerp(sample[index], sample[index + 1], (t - l - lo) / (h - l));
     }
     constexpr float fetch(const float &lambda) const { return fetch(s_.data(), 400, 380.f, 779.f, lambda); }
-- 
2.43.0


From ecafa1a2172601f1bf109d3808f244dfe3eccc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 08/27] fix: svdcmp lost the rotation of rv1 when cancelling a
 zero singular value

---
 include/colorsystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 2ceab94..2e5815e 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7606,7 +7606,8 @@ namespace SOLVER
                     s = 1.0;
                     for (int i = l; i <= k; i++)
                     {
-                        f = s * rv1[i];
+                        f      = s * rv1[i];
+                        rv1[i] = c * rv1[i];
                         if (fabs(f) + anorm != anorm)
                         {
                             g    = w[i];
-- 
2.43.0


From 3d15059dc282bba7193a780d4c4b7306a8be22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 09/27] fix: SOLVER::solve ignored a failed decomposition

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 2e5815e..a01c8c9 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7739,7 +7739,7 @@ namespace SOLVER
         float  wmax, thresh;
 
         int r = svdcmp(A, W, V);
-        if (r == 0)
+        if (r < 0)
         {
             return r;
         }
-- 
2.43.0


From 631d8d858543999e1649a7a7a122c5672ee82938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 10/27] fix: MemoryStream::put_at truncated the stream instead
 of growing it

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index a01c8c9..3289a10 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -872,8 +872,8 @@ class MemoryStream
     }
     void put_at(size_t abs, uint8_t val)
     {
-        if (abs < buffer_.size())
-            buffer_.resize(abs);
+        if (abs >= buffer_.size())
+            buffer_.resize(abs + 1);
         buffer_[abs] = val;
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
-- 
2.43.0


From 97044895871fc1a0cbe4de6eb11d169c142d69b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 11/27] fix: MemoryStream::putUint8 did not advance when
 overwriting

---
 include/colorsystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 3289a10..340d979 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -923,6 +923,7 @@ class MemoryStream
         if (ptr_ < s)
         {
             buffer_[ptr_] = uc;
+            ptr_++;
             return;
         }
         else if (ptr_ == s)
-- 
2.43.0


From 22403c9507ff3a1a2d38b096c4bbbdce11de81dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 12/27] fix: MemoryStream strings lost their last character and
 their length

---
 include/colorsystem.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 340d979..ff5601b 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1218,14 +1218,18 @@ class MemoryStream
     void putDouble(const double v) { putUint64(*(uint64_t *)&v); }
     void putSubstr(const std::string &str, size_t len)
     {
-        for (int i = 0; i < len - 1; i++)
+        for (size_t i = 0; i + 1 < len; i++)
         {
             putUint8(str[i]);
         }
         if (len > 0)
             putUint8(0);
     }
-    void putString(const std::string &str) { putSubstr(str, str.size()); }
+    void putString(const std::string &str)
+    {
+        putUint32((uint32_t)(str.size() + 1));
+        putSubstr(str, str.size() + 1);
+    }
 };
 
 static Gamut loadGamutFromICCProfileMemory(const void *mem, size_t size)
-- 
2.43.0


From b70c05940f0500dae48c59cd05f06d1bf5667f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 13/27] fix: Corrector::makeGamut passed its RGB to XYZ matrix
 as the XYZ to RGB one

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index ff5601b..271205e 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7846,7 +7846,7 @@ class Corrector
     static Gamut makeGamut(const char *name, std::vector<Tristimulus> &patch, const Spectrum &light = CIE_D65,
         const Observer &observer = CIE1931)
     {
-        return Gamut(name, solve(patch, light, observer));
+        return Gamut(name, solve(patch, light, observer).invert());
     }
 };
 
-- 
2.43.0


From 7ed707dfe7f02910191a1129817c92e4af8f9c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:42 +0000
Subject: [PATCH 14/27] fix: mod360 recursed without end for large hues

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 271205e..0d91ba0 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -441,7 +441,7 @@ class Tristimulus
     // HSV
     static constexpr float mod360(const float &r)
     {
-        return (r < 0.f) ? mod360(r + 360.f) : ((r > 360.f) ? mod360(r - 360.f) : r);
+        return (r < 0.f) ? (fmodf(r, 360.f) + 360.f) : ((r > 360.f) ? fmodf(r, 360.f) : r);
     }
     static Tristimulus toHSV_atan(const Tristimulus &t)
     {
-- 
2.43.0


From e9554fa0fd628224f2454a31eb858d11025cf0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:41 +0000
Subject: [PATCH 15/27] fix: CIEDE2000 mean hue left 0..360 when the two hues
 sum to 360 or more

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 0d91ba0..3c6f926 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1487,7 +1487,7 @@ class Delta
         const float CdBar   = (Cd1 + Cd2) / 2.f;
         const float h1      = fmodf(360.f + atan2f(b1, ad1) * 180.0f / PI, 360.f);
         const float h2      = fmodf(360.f + atan2f(b2, ad2) * 180.0f / PI, 360.f);
-        const float HdBar   = (fabs(h1 - h2) > 180.f ? (h1 + h2 + 360.f) : (h1 + h2)) / 2.f;
+        const float HdBar   = (fabs(h1 - h2) > 180.f ? (h1 + h2 < 360.f ? h1 + h2 + 360.f : h1 + h2 - 360.f) : (h1 + h2)) / 2.f;
         const float T1      = 1.f - 0.17f * cosf(PI * (1.f * HdBar - 30.f) / 180.f);
         const float T2      = 0.24f * cosf(PI * (2.f * HdBar) / 180.f) + 0.32f * cosf(PI * (3.f * HdBar + 6.f) / 180.f);
         const float T3      = 0.20f * cosf(PI * (4.f * HdBar - 63.f) / 180.f);
-- 
2.43.0


From f6905ca567ced2d1329b0ce649a61a5e88694cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:59 +0000
Subject: [PATCH 16/27] fix: svdcmp went on with a stale rotation after its
 cancellation had ended

---
 include/colorsystem.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 3c6f926..30a73ac 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7629,6 +7629,8 @@ namespace SOLVER
                                 a[j][i]  = (z * c - y * s);
                             }
                         }
+                        else
+                            break; /* nothing left to cancel, c and s are those of an earlier row */
                     }
                 }
                 z = w[k];
-- 
2.43.0


From 8617a0c512dc0afe5c4295860168297dc7ec0856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:42 +0000
Subject: [PATCH 17/27] fix: svdcmp stalled on half-ulp off-diagonals and left
 singular values negative

---
 include/colorsystem.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 30a73ac..263eaab 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7443,6 +7443,7 @@ namespace SOLVER
         int   flag, its, j, jj, k, l, nm;
         float c, f, h, s, x, y, z;
         float anorm = 0.0, g = 0.0, scale = 0.0;
+        const float eps = std::numeric_limits<float>::epsilon();
 
         int m = a.rows();
         int n = a.cols();
@@ -7597,12 +7598,12 @@ namespace SOLVER
                 for (l = k; l >= 0; l--)
                 { /* test for splitting */
                     nm = l - 1;
-                    if (fabs(rv1[l]) + anorm == anorm)
+                    if (fabsf(rv1[l]) <= eps * anorm)
                     {
                         flag = 0;
                         break;
                     }
-                    if (fabs(w[nm]) + anorm == anorm)
+                    if (fabsf(w[nm]) <= eps * anorm)
                         break;
                 }
                 if (flag)
@@ -7613,7 +7614,7 @@ namespace SOLVER
                     {
                         f      = s * rv1[i];
                         rv1[i] = c * rv1[i];
-                        if (fabs(f) + anorm != anorm)
+                        if (fabsf(f) > eps * anorm)
                         {
                             g    = w[i];
                             h    = PYTHAG(f, g);
-- 
2.43.0


From e2722254f966aefb583cddeb0ed9b62b54722e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:25 +0000
Subject: [PATCH 18/27] fix: svdcmp produced NaN from denormal reflectors of
 rank-deficient matrices

---
 include/colorsystem.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 263eaab..d34fc3e 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7444,6 +7444,7 @@ namespace SOLVER
         float c, f, h, s, x, y, z;
         float anorm = 0.0, g = 0.0, scale = 0.0;
         const float eps = std::numeric_limits<float>::epsilon();
+        const float tiny = std::numeric_limits<float>::min() / eps; /* below this a reflector loses its precision */
 
         int m = a.rows();
         int n = a.cols();
@@ -7466,7 +7467,7 @@ namespace SOLVER
             {
                 for (k = i; k < m; k++)
                     scale += fabs(a[k][i]);
-                if (scale)
+                if (scale > tiny)
                 {
                     for (k = i; k < m; k++)
                     {
@@ -7500,7 +7501,7 @@ namespace SOLVER
             {
                 for (k = l; k < n; k++)
                     scale += fabs(a[i][k]);
-                if (scale)
+                if (scale > tiny)
                 {
                     for (k = l; k < n; k++)
                     {
-- 
2.43.0


From 9e610e5143cbf88f72539708386b66e836fc218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:05 +0000
Subject: [PATCH 19/27] fix: picojson reports a number beyond the double range
 as a parse error instead of throwing

---
 ext/picojson.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/picojson.h b/ext/picojson.h
index 045dc53..79ba7b9 100644
--- a/ext/picojson.h
+++ b/ext/picojson.h
@@ -812,7 +812,8 @@ namespace picojson {
         }
 #endif
         f = strtod(num_str.c_str(), &endp);
-        if (endp == num_str.c_str() + num_str.size()) {
+        if (endp == num_str.c_str() + num_str.size()
+            && fabs(f) <= std::numeric_limits<double>::max()) {
           ctx.set_number(f);
           return true;
         }
-- 
2.43.0


From 9723d728e6fdb08deffc62c98cc01c64e5f5497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:05 +0000
Subject: [PATCH 20/27] fix: picojson rejects texts nested deeper than 1000
 levels instead of overflowing the stack

---
 ext/picojson.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ext/picojson.h b/ext/picojson.h
index 79ba7b9..2926b38 100644
--- a/ext/picojson.h
+++ b/ext/picojson.h
@@ -111,7 +111,8 @@ namespace picojson {
   };
   
   enum {
-    INDENT_WIDTH = 2
+    INDENT_WIDTH = 2,
+    MAX_DEPTH = 1000 // arrays and objects nested deeper are a syntax error
   };
 
   struct null {};
@@ -554,8 +555,11 @@ namespace picojson {
     int last_ch_;
     bool ungot_;
     int line_;
+    int depth_;
   public:
-    input(const Iter& first, const Iter& last) : cur_(first), end_(last), last_ch_(-1), ungot_(false), line_(1) {}
+    input(const Iter& first, const Iter& last) : cur_(first), end_(last), last_ch_(-1), ungot_(false), line_(1), depth_(0) {}
+    bool enter() { return ++depth_ <= MAX_DEPTH; }
+    bool leave() { --depth_; return true; }
     int getc() {
       if (ungot_) {
 	ungot_ = false;
@@ -786,9 +790,9 @@ namespace picojson {
     case '"':
       return ctx.parse_string(in);
     case '[':
-      return _parse_array(ctx, in);
+      return in.enter() && _parse_array(ctx, in) && in.leave();
     case '{':
-      return _parse_object(ctx, in);
+      return in.enter() && _parse_object(ctx, in) && in.leave();
     default:
       if (('0' <= ch && ch <= '9') || ch == '-') {
         double f;
-- 
2.43.0


From 81fd08719f57b6b40925bfdf0928be7e2527e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:26 +0000
Subject: [PATCH 21/27] fix: PQ decoder gives black, not NaN, for codes below
 zero

ICtCp_to_XYZ feeds the decoder codes that rounding can put just below zero
(any colour with a zero cone response), and powf of a negative code is NaN.
---
 include/colorsystem.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index d34fc3e..da016df 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -586,6 +586,8 @@ class OTF
 
         // Note that this does NOT handle any of the signal range
         // considerations from 2084 - this assumes full range (0 - 1)
+        if (pixel <= 0.f)
+            return 0.f; // powf of a negative code is NaN
         float Np = powf(pixel, 1.0f / pq_m2);
         float L  = Np - pq_c1;
         if (L < 0.0)
-- 
2.43.0


From d3b9a69f01f95691d3a5a43102118611530e88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:28 +0000
Subject: [PATCH 22/27] fix: picojson operator== changed 64-bit integers into
 doubles and compared them rounded

---
 ext/picojson.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ext/picojson.h b/ext/picojson.h
index 2926b38..23cd5fe 100644
--- a/ext/picojson.h
+++ b/ext/picojson.h
@@ -995,6 +995,14 @@ namespace picojson {
     if (x.is<type>())						\
       return y.is<type>() && x.get<type>() == y.get<type>()
     PICOJSON_CMP(bool);
+#ifdef PICOJSON_USE_INT64
+    // get<double>() turns an integer into a double: compare integers as they
+    // are, and an integer with a double through copies
+    if (x.is<int64_t>() && y.is<int64_t>())
+      return x.get<int64_t>() == y.get<int64_t>();
+    if (x.is<double>() && y.is<double>())
+      return value(x).get<double>() == value(y).get<double>();
+#endif
     PICOJSON_CMP(double);
     PICOJSON_CMP(std::string);
     PICOJSON_CMP(array);
-- 
2.43.0


From 6ed5d54085807d948442548987f1a868ccec5120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 23/27] fix: Spectrum::fetch read outside the table for a
 wavelength or range that is not a number or overflows

---
 include/colorsystem.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index da016df..f392179 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1257,7 +1257,12 @@ class Spectrum
             return sample[0];
         if (t >= hi)
             return sample[count];
-        const int   index = (int)(count * (t - lo) / (hi - lo));
+        const float pos   = count * (t - lo) / (hi - lo);
+        if (!(pos >= 0.f)) // not a number
+            return sample[0];
+        if (pos >= count) // also when the division overflowed
+            return sample[count];
+        const int   index = (int)pos;
         const float l     = index * (hi - lo) / count;
         const float h     = (index + 1) * (hi - lo) / count;
         return (index >= count) ? sample[count]
-- 
2.43.0


From a55579fe0b8c19c49615e5c6d0355d4a99aaf1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:16 +0000
Subject: [PATCH 24/27] fix: picojson parsers ignored a context's refusal of a
 number

---
 ext/picojson.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ext/picojson.h b/ext/picojson.h
index 23cd5fe..107970e 100644
--- a/ext/picojson.h
+++ b/ext/picojson.h
@@ -810,16 +810,14 @@ namespace picojson {
               && std::numeric_limits<int64_t>::min() <= ival
               && ival <= std::numeric_limits<int64_t>::max()
               && endp == num_str.c_str() + num_str.size()) {
-            ctx.set_int64(ival);
-            return true;
+            return ctx.set_int64(ival);
           }
         }
 #endif
         f = strtod(num_str.c_str(), &endp);
         if (endp == num_str.c_str() + num_str.size()
             && fabs(f) <= std::numeric_limits<double>::max()) {
-          ctx.set_number(f);
-          return true;
+          return ctx.set_number(f);
         }
         return false;
       }
-- 
2.43.0


From 82d825d1cd908eb913452c77025544a96a761158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:57 +0000
Subject: [PATCH 25/27] fix: MemoryStream indexed past the end of its vector
 when reading, writing or pointing at the end of the stream (aborts with
 checked containers)

---
 include/colorsystem.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f392179..ad117cd 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -823,7 +823,8 @@ class MemoryStream
         if (data)
         {
             buffer_.resize(sz);
-            memcpy(&(buffer_.front()), data, sz);
+            if (sz > 0)
+                memcpy(buffer_.data(), data, sz);
         }
         else
         {
@@ -861,8 +862,8 @@ class MemoryStream
 
     void seekTo(Pointer p) { fseek((int)p, TOP); }
 
-    void *ptr(void) { return (void *)&(buffer_[ptr_]); }
-    void *ptr(Pointer p) { return (void *)&(buffer_[p]); }
+    void *ptr(void) { return (void *)(buffer_.data() + ptr_); }
+    void *ptr(Pointer p) { return (void *)(buffer_.data() + p); }
     bool  feof(void) { return ptr_ >= buffer_.size(); }
 
     // read absolute.
@@ -884,7 +885,8 @@ class MemoryStream
         if (r < 0)
             return 0;
         size_t remain = (s < r) ? s : r;
-        memcpy(buffer, ptr(p), remain);
+        if (remain > 0)
+            memcpy(buffer, ptr(p), remain);
         return remain;
     }
     size_t write_at(const void *buffer, size_t s, Pointer p)
@@ -893,7 +895,8 @@ class MemoryStream
         size_t s2 = p + s;
         if (s2 > s1)
             buffer_.resize(s2);
-        memcpy(ptr(p), buffer, s);
+        if (s > 0)
+            memcpy(ptr(p), buffer, s);
         return s;
     }
     size_t read(void *buffer, size_t size)
-- 
2.43.0


From c6c03f7eb033999184ad75fad76602fc210179a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:33 +0000
Subject: [PATCH 26/27] fix: MemoryStream::getInt16/32/64 left-shifted negative
 numbers (undefined before C++20)

---
 include/colorsystem.hpp | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index ad117cd..fbace72 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -954,9 +954,7 @@ class MemoryStream
     }
     const int16_t getInt16(void)
     {
-        uint8_t a = getUint8();
-        uint8_t b = getUint8();
-        return (readEndian_ == BIG) ? ((*(int8_t *)&a << 8) | b) : ((*(int8_t *)&b << 8) | a);
+        return (int16_t)getUint16();
     }
     const uint32_t getUint32(void)
     {
@@ -966,9 +964,7 @@ class MemoryStream
     }
     const int32_t getInt32(void)
     {
-        uint16_t a = getUint16();
-        uint16_t b = getUint16();
-        return (readEndian_ == BIG) ? ((*(int16_t *)&a << 16) | b) : ((*(int16_t *)&b << 16) | a);
+        return (int32_t)getUint32();
     }
     const uint64_t getUint64(void)
     {
@@ -987,19 +983,7 @@ class MemoryStream
     }
     const int64_t getInt64(void)
     {
-        uint64_t lo;
-        int64_t  hi;
-        if (readEndian_ == BIG)
-        {
-            hi = getInt32();
-            lo = getUint32();
-        }
-        else
-        {
-            lo = getUint32();
-            hi = getInt32();
-        }
-        return (lo | hi << 32);
+        return (int64_t)getUint64();
     }
     const float getFloat(void)
     {
-- 
2.43.0


From 808e1a367904f50174e4b0b18bfa41d15e752bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:42 +0000
Subject: [PATCH 27/27] fix: picojson: a value that ends with a character put
 back (a number) swallowed that character: the position returned, and the
 stream, were one too far

---
 ext/picojson.h | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/ext/picojson.h b/ext/picojson.h
index 107970e..958ccb6 100644
--- a/ext/picojson.h
+++ b/ext/picojson.h
@@ -552,37 +552,35 @@ namespace picojson {
   template <typename Iter> class input {
   protected:
     Iter cur_, end_;
-    int last_ch_;
-    bool ungot_;
+    bool consumed_;
     int line_;
     int depth_;
   public:
-    input(const Iter& first, const Iter& last) : cur_(first), end_(last), last_ch_(-1), ungot_(false), line_(1), depth_(0) {}
+    input(const Iter& first, const Iter& last) : cur_(first), end_(last), consumed_(false), line_(1), depth_(0) {}
     bool enter() { return ++depth_ <= MAX_DEPTH; }
     bool leave() { --depth_; return true; }
-    int getc() {
-      if (ungot_) {
-	ungot_ = false;
-	return last_ch_;
+    void advance() {
+      if (consumed_) {
+	consumed_ = false;
+	if (*cur_ == '\n') {
+	  line_++;
+	}
+	++cur_;
       }
+    }
+    int getc() {
+      advance();
       if (cur_ == end_) {
-	last_ch_ = -1;
 	return -1;
       }
-      if (last_ch_ == '\n') {
-	line_++;
-      }
-      last_ch_ = *cur_ & 0xff;
-      ++cur_;
-      return last_ch_;
+      consumed_ = true;
+      return *cur_ & 0xff;
     }
-    void ungetc() {
-      if (last_ch_ != -1) {
-	PICOJSON_ASSERT(! ungot_);
-	ungot_ = true;
-      }
+    void ungetc() { consumed_ = false; }
+    Iter cur() const {
+      const_cast<input*>(this)->advance();
+      return cur_;
     }
-    Iter cur() const { return cur_; }
     int line() const { return line_; }
     void skip_ws() {
       while (1) {
-- 
2.43.0

