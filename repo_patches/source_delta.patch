From 7ec6becd0c5b689a353faa8f7d1381f60cf79155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:23 +0000
Subject: [PATCH 1/8] fix: 32-bit overflow in Gregorian date to MJD /
 day-in-year conversion for remote years

---
 src/cldj.cc |  5 +++--
 src/clyd.cc | 12 ++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/cldj.cc b/src/cldj.cc
index 21d5685..b4cf055 100644
--- a/src/cldj.cc
+++ b/src/cldj.cc
@@ -37,9 +37,10 @@ G2JStatus cldj(int year, int month, int day, double& mjd) {
         // validate month
         if (month >= 1 && month <= 12) {
             // calculate and return Modified Julian Date
-            mjd = double((1461 * (year - (12 - month) / 10 + 4712)) / 4
+            const long long y = year; // intermediate products exceed 32 bits for remote years
+            mjd = double((1461 * (y - (12 - month) / 10 + 4712)) / 4
                 + (306 * ((month + 9) % 12) + 5) / 10
-                - (3 * ((year - (12 - month) / 10 + 4900) / 100)) / 4
+                - (3 * ((y - (12 - month) / 10 + 4900) / 100)) / 4
                 + day - 2399904);
             // validate day
             return validate_gregorian_day(year, month, day);
diff --git a/src/clyd.cc b/src/clyd.cc
index 36a07f8..89745ef 100644
--- a/src/clyd.cc
+++ b/src/clyd.cc
@@ -51,16 +51,16 @@ G2JStatus clyd(int year, int month, int day, int& jyear, int& jday) {
         if (month >= 1 && month <= 12) {
             // perform the conversion
             int i = (14 - month) / 12;
-            int k = year - i;
-            int j = (1461 * (k + 4800)) / 4 + (367 * (month - 2 + 12 * i)) / 12 -
+            long long k = year - i; // intermediate products exceed 32 bits for remote years
+            long long j = (1461 * (k + 4800)) / 4 + (367 * (month - 2 + 12 * i)) / 12 -
                     (3 * ((k + 4900) / 100)) / 4 + day - 30660;
             k = (j - 1) / 1461;
-            const int L = j - 1461 * k;
+            const int L = int(j - 1461 * k);
             const int N = (L - 1) / 365 - L / 1461;
             j = ((80 * (L - 365 * N + 30)) / 2447) / 11;
-            i = N + j;
-            jday = 59 + L - 365 * i + ((4 - N) / 4) * (1 - j);
-            jyear = 4 * k + i - 4716;
+            i = int(N + j);
+            jday = int(59 + L - 365 * i + ((4 - N) / 4) * (1 - j));
+            jyear = int(4 * k + i - 4716);
 
             // validate day
             return validate_gregorian_day(year, month, day);
-- 
2.43.0


From 5cca4275a73ce51cddcb26d022f680f62863ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:23 +0000
Subject: [PATCH 2/8] fix: 32-bit overflow in MJD to Gregorian date conversion
 for accepted MJDs above 5.3e8

---
 src/djcal.cc | 8 ++++----
 src/djcl.cc  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/djcal.cc b/src/djcal.cc
index e891a62..3fc0bc6 100644
--- a/src/djcal.cc
+++ b/src/djcal.cc
@@ -56,12 +56,12 @@ bool djcal(int ndp, double mjd, Date& date) {
         const double d = (df - f) / fd;
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const long long jd = f_nint(d) + 2400001; // `4 * jd` exceeds 32 bits for remote dates
 
-        const int n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
-        const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
+        const long long n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
+        const int nd10 = 10 * int(((n4 - 237) % 1461) / 4) + 5;
 
-        date.d_year = n4 / 1461 - 4712;
+        date.d_year = int(n4 / 1461 - 4712);
         date.d_month =  ((nd10 / 306 + 2) % 12) + 1;
         date.d_day = (nd10 % 306) / 10 + 1;
         date.d_ifraction = f_nint(f);
diff --git a/src/djcl.cc b/src/djcl.cc
index 2482bf1..4669f68 100644
--- a/src/djcl.cc
+++ b/src/djcl.cc
@@ -46,12 +46,12 @@ bool djcl(double mjd, Date& date) {
         const double d = f_anint(mjd - f);
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const long long jd = f_nint(d) + 2400001; // `4 * jd` exceeds 32 bits for remote dates
 
-        const int n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
-        const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
+        const long long n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
+        const int nd10 = 10 * int(((n4 - 237) % 1461) / 4) + 5;
 
-        date.d_year = n4 / 1461 - 4712;
+        date.d_year = int(n4 / 1461 - 4712);
         date.d_month = ((nd10 / 306 + 2) % 12) + 1;
         date.d_day = (nd10 % 306) / 10 + 1;
         date.d_fraction = f;
-- 
2.43.0


From ecf962a0c5b8940921d2cadec84e0060bd38b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:16 +0000
Subject: [PATCH 3/8] fix: epco() rejected documented lower-case epoch types
 ('j' as result, 'b' as given)

---
 src/epco.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/epco.cc b/src/epco.cc
index e080738..7b444c5 100644
--- a/src/epco.cc
+++ b/src/epco.cc
@@ -34,12 +34,16 @@ namespace sla {
 double epco(char result, char given, double epoch) {
     if (result == 'b') {
         result = 'B';
+    } else if (result == 'j') {
+        result = 'J';
     }
     if (result != 'B' && result != 'J') {
         return 0.0;
     }
     if (given == 'j') {
         given = 'J';
+    } else if (given == 'b') {
+        given = 'B';
     }
     if (given != 'B' && given != 'J') {
         return 0.0;
-- 
2.43.0


From 063d57fdf405b2a62a8cc93a36201f9d1c839c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:27 +0000
Subject: [PATCH 4/8] fix: position angle between coincident directions was not
 zero (dpav, pav)

---
 src/dpav.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/dpav.cc b/src/dpav.cc
index 74690d0..536d3e8 100644
--- a/src/dpav.cc
+++ b/src/dpav.cc
@@ -35,23 +35,20 @@ namespace sla {
  *   coincident, zero is returned.
  */
 double dpav(const Vector<double> va, const Vector<double> vb) {
-    // unit vector to point 1
-    double x1 = va[0];
-    double y1 = va[1];
-    double z1 = va[2];
+    // vector to point 1; it is not converted to a unit vector, for rounding errors of the division would prevent
+    // expressions below from vanishing when the two points are coincident
+    const double x1 = va[0];
+    const double y1 = va[1];
+    const double z1 = va[2];
     const double length = std::sqrt(x1 * x1 + y1 * y1 + z1 * z1);
-    if (length != 0.0) {
-        x1 = x1 / length;
-        y1 = y1 / length;
-        z1 = z1 / length;
-    }
+
     // vector to point 2
     const double x2 = vb[0];
     const double y2 = vb[1];
     const double z2 = vb[2];
 
     // position angle
-    const double sq = y2 * x1 - x2 * y1;
+    const double sq = (y2 * x1 - x2 * y1) * length;
     double cq = z2 * (x1 * x1 + y1 * y1) - z1 * (x2 * x1 + y2 * y1);
     if (sq == 0.0 && cq == 0.0) {
         cq = 1.0;
-- 
2.43.0


From 49370ff5cb38b15dd58edcc7a5e1dca968ac731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:51 +0000
Subject: [PATCH 5/8] fix: polmo() returned NaN azimuth correction for a site
 brought exactly onto the true pole

---
 src/polmo.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/polmo.cc b/src/polmo.cc
index a61911e..6a60942 100644
--- a/src/polmo.cc
+++ b/src/polmo.cc
@@ -104,9 +104,12 @@ void polmo(double m_long, double m_phi, double x_pm, double y_pm, double& t_long
     cos_phi = std::sqrt(xt * xt + yt * yt);
     if (cos_phi == 0.0) {
         xt = 1.0;
+        sin_long = 0.0;
+        cos_long = 1.0;
+    } else {
+        sin_long = yt / cos_phi;
+        cos_long = xt / cos_phi;
     }
-    sin_long = yt / cos_phi;
-    cos_long = xt / cos_phi;
 
     // return true longitude and true geodetic latitude of site
     t_long = (xt != 0.0 || yt != 0.0)? std::atan2(yt, xt): 0.0;
-- 
2.43.0


From 5c51fa2ae32a3fc275360bf090f60248c7cbb525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:16 +0000
Subject: [PATCH 6/8] fix: svd() gave a wrong factorisation for rank-deficient
 matrices (cancellation step did not update the superdiagonal)

---
 src/svd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/svd.cc b/src/svd.cc
index 49bc8d2..b24a048 100644
--- a/src/svd.cc
+++ b/src/svd.cc
@@ -273,9 +273,11 @@ int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* w
 
                 // Cancellation of ws[l] if l>1
                 if (cancel) {
+                    c = 0.0;
                     s = 1.0;
                     for (i = l; i <= k; i++) {
                         f = s * ws[i];
+                        ws[i] *= c;
                         if (an + std::fabs(f) == an) {
                             break;
                         }
-- 
2.43.0


From fffb93e25c5197ede7d02e2a76a6a7245c52db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:01 +0000
Subject: [PATCH 7/8] fix: fitxy() reported success with a zero model when both
 samples of a two-point solid-body fit coincide

---
 src/fitxy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fitxy.cc b/src/fitxy.cc
index 9367044..62d7e55 100644
--- a/src/fitxy.cc
+++ b/src/fitxy.cc
@@ -66,7 +66,7 @@ FITStatus fitxy(bool sbr, int nsamples, const XYSamples expected, const XYSample
     double b_old = 0.0;
     double c_old = 0.0;
     double d_old = 0.0;
-    double sdr2_old = 0.0;
+    double sdr2_old = -1.0;
 
     // get floating-point value of the number of samples
     auto num_samples = (const double) nsamples;
-- 
2.43.0


From 4825c1955423a2aeae2f7397be23aea7ed9dbe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:07 +0000
Subject: [PATCH 8/8] fix: svd() reported non-convergence when an off-diagonal
 element settled at half a unit in the last place of the norm (equal singular
 values)

---
 src/svd.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/svd.cc b/src/svd.cc
index b24a048..7328b90 100644
--- a/src/svd.cc
+++ b/src/svd.cc
@@ -18,6 +18,7 @@
 #include "slalib.h"
 #include "f77_utils.h"
 #include <cmath>
+#include <limits>
 
 namespace sla {
 
@@ -81,6 +82,8 @@ int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* w
 
     // maximum number of iterations in QR phase
     constexpr int MAX_ITERATIONS = 30;
+    // elements below this fraction of the norm are negligible
+    constexpr double EPSILON = std::numeric_limits<double>::epsilon();
 
     // check that the matrix is the right shape
     int status;
@@ -261,12 +264,12 @@ int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* w
                 int l1;
                 for (l = k; l >= 0; l--) {
                     l1 = l - 1;
-                    if (an + std::fabs(ws[l]) == an) {
+                    if (std::fabs(ws[l]) <= EPSILON * an) {
                         cancel = false;
                         break;
                     }
                     // (Following never attempted for l=0 because ws[0] is zero)
-                    if (an + std::fabs(w[l1]) == an) {
+                    if (std::fabs(w[l1]) <= EPSILON * an) {
                         break;
                     }
                 }
@@ -278,7 +281,7 @@ int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* w
                     for (i = l; i <= k; i++) {
                         f = s * ws[i];
                         ws[i] *= c;
-                        if (an + std::fabs(f) == an) {
+                        if (std::fabs(f) <= EPSILON * an) {
                             break;
                         }
                         g = w[i];
-- 
2.43.0

