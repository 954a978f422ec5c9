From ac600d54cb9b667b209d8535e9e5828c1623f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 01/18] fix: realtime auto-AF mode includes the first term of a
 newly added AF

update_af() ran after the sums were updated, so the difference that becomes
available at the point where an averaging factor is added was never summed
(oadev_realtime, tdev_realtime disagreed with oadev/tdev for added AFs).
---
 allantools/realtime.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 50d3eb9..a5f9d56 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -108,11 +108,11 @@ class oadev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()  # before the sums, so a new AF misses no term
         for idx, af in enumerate(self.afs):
             if len(self.x) >= (2*af+1):
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares.
@@ -147,11 +147,11 @@ class ohdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()  # before the sums, so a new AF misses no term
         for idx, af in enumerate(self.afs):
             if len(self.x) > 3*af:
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares """
@@ -183,14 +183,14 @@ class tdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()  # before the sums, so a new AF misses no term
         for idx, af in enumerate(self.afs):
             if len(self.x) >= 3*af+1:  # 3n+1 samples measured
                 self.update_S(idx)
             elif len(self.x) >= 2*af+1:  # 2n+1 samples measured
                 self.update_S3n(idx)
 
-        if self.auto_afs:
-            self.update_af()
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
-- 
2.43.0


From 9632600b144eda8efea4c73b2246f90b3f154478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 02/18] fix: realtime auto-AF mode sizes dev and S by the AFs
 in use

With auto_afs=True the list starts at [1] whatever afs is given; the
deviation and sum arrays were sized by the argument and got misaligned.
---
 allantools/realtime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index a5f9d56..bfd132c 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -46,7 +46,7 @@ class dev_realtime(object):
         self.af_decade = 0    # logspace decade
         if auto_afs:
             self.afs = numpy.array([1])
-        self.dev = numpy.zeros(len(afs))    # resulting xDEV
+        self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
         self.tau0 = tau0                     # time-interval between points
 
     def update_af(self):
@@ -103,7 +103,7 @@ class oadev_realtime(dev_realtime):
         super(oadev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
@@ -139,7 +139,7 @@ class ohdev_realtime(dev_realtime):
         super(ohdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
@@ -177,8 +177,8 @@ class tdev_realtime(dev_realtime):
         super(tdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                             auto_afs=auto_afs,
                                             pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
-        self.So = numpy.zeros(len(afs))      # overall sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
+        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point """
-- 
2.43.0


From 1a441ec3d158ecff60ba60dfc4663e3ca7c7518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 03/18] fix: realtime auto-AF mode skips averaging factors that
 round to one in use

With six or more points per decade the rounded log-spaced values repeat;
the repeated entries were added late and missed data.
---
 allantools/realtime.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index bfd132c..a7c46a7 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -39,7 +39,7 @@ class dev_realtime(object):
         self.x = []                         # phase time-series
         self.afs = afs                      # averaging factor, tau = af*tau0
         self.auto_afs = auto_afs
-        # logscpace will fail at >=6 (?), need to remove duplicates?
+        # duplicates after rounding (>=6 points per decade) skipped in next_af()
         self.af_taus = numpy.logspace(0, 1, pts_per_decade+1)[:-1]
         # logspace index, to keep track of afs in auto-af mode
         self.af_idx = 0
@@ -49,20 +49,28 @@ class dev_realtime(object):
         self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
         self.tau0 = tau0                     # time-interval between points
 
+    def next_af(self):
+        """ next possible AF in auto-AF mode, with its logspace index and decade.
+            Values that round to an AF already in use are skipped.
+        """
+        next_idx = self.af_idx
+        next_decade = self.af_decade
+        next_af = self.afs[-1]
+        while next_af <= self.afs[-1]:
+            next_idx = next_idx + 1
+            if next_idx == len(self.af_taus):
+                next_idx = 0
+                next_decade = next_decade + 1
+            next_af = int(numpy.round(
+                pow(10.0, next_decade) * self.af_taus[next_idx]))
+        return next_af, next_idx, next_decade
+
     def update_af(self):
         """ used in auto-AF mode,
             - check if we can add another AF
             - if yes, add it.
         """
-        next_idx = self.af_idx+1
-        next_decade = self.af_decade
-        if next_idx == len(self.af_taus):
-            next_idx = 0
-            next_decade = self.af_decade + 1
-
-        # next possible AF:
-        next_af = int(numpy.round(
-            pow(10.0, next_decade) * self.af_taus[next_idx]))
+        next_af, next_idx, next_decade = self.next_af()
         if len(self.x) >= (2*next_af+1):  # can compute next AF
             self.afs = numpy.append(self.afs, next_af)  # new AF
             self.add_af()  # tell subclass to update internal variables
-- 
2.43.0


From 81e48ade1c7c205c8cc3a1310e0a6ef23faa678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 04/18] fix: realtime add_frequency integrates with the
 sampling interval tau0

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index a7c46a7..13d22c2 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -87,7 +87,7 @@ class dev_realtime(object):
         """ add new frequency point, in units of Hz """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f)  # integration
+        self.add_phase(self.x[-1] + f*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
-- 
2.43.0


From 55d85ff7d12b7cdba0fcb782a2357b3fb41347a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 05/18] fix: gradev error bars are distances to the confidence
 limits

confidence_interval() was called with edf and confidence swapped (error
bars NaN), and its limits were returned where the documentation promises
distances from the deviation.
---
 allantools/allantools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 8daffcf..e5f9be3 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1658,7 +1658,8 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
 
     if n > 1:
         edf = ci.edf_simple(N, mj, alpha)
-        deverr = ci.confidence_interval(dev, confidence, edf)
+        lower, upper = ci.confidence_interval(dev, edf, confidence)
+        deverr = [dev - lower, upper - dev]  # distances from dev
     else:
         deverr = [0, 0]
 
-- 
2.43.0


From c84dc9129eec3e439a04b7a4ed604f5bb725bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 06/18] fix: gradev maps the documented noise types to their
 exponents

Flicker phase noise used the random-walk frequency exponent, and the
documented 'ff' and 'rf' were treated as unknown.
---
 allantools/allantools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index e5f9be3..961d367 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1652,6 +1652,10 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
     elif noisetype == 'wf':
         alpha = 0
     elif noisetype == 'fp':
+        alpha = 1
+    elif noisetype == 'ff':
+        alpha = -1
+    elif noisetype == 'rf':
         alpha = -2
     else:
         alpha = None
-- 
2.43.0


From 84882ef0dcc27706e1a154bec66a91867d389df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 07/18] fix: edf_simple flicker FM at m=1 follows NIST SP1065
 Table 5

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index c4fe2bc..6c7cb2e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -816,7 +816,7 @@ def edf_simple(N, m, alpha):
 
         if alpha == -1:
             if m == 1:
-                edf = 2 * (N - 2)/(2.3 * N - 4.9)
+                edf = 2 * (N - 2)**2/(2.3 * N - 4.9)
             if m >= 2:
                 edf = 5 * N**2 / (4 * m * (N + (3 * m)))
 
-- 
2.43.0


From f8a0500b1cb2be2fea85dc69d45529820d6e7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 08/18] fix: adev2psd_piecewise_approx returns no break
 frequency for one segment

The two nodes returned for a single segment were refused by
timmer_koenig_from_psd and made psd_piecewise_to_adev integrate only the
band below the first of them.
---
 allantools/allantools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 961d367..61f90b3 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1907,8 +1907,10 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
 
     # frequency nodes and Sy(f_nodes) values (exactly like your original)
     if filtered_adev.size == 2:
-        f_nodes = np.array([1.0 / t for t in filtered_tau], dtype=float)[::-1]
-        Sy_nodes = np.array([hi[0] * (f_nodes[i] ** alphas[0]) for i in range(f_nodes.size)], dtype=float)
+        # one segment, no break: psd_piecewise_to_adev() and
+        # timmer_koenig_from_psd() take len(h)-1 nodes
+        f_nodes = np.array([], dtype=float)
+        Sy_nodes = np.array([], dtype=float)
     else:
         f_nodes = np.array(
             [
-- 
2.43.0


From e2f781f18d5b4f2369af0a1716caf3037ae88c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 09/18] fix: adev2psd_piecewise_approx break frequencies for
 any tau spacing

The closed form assumed that each segment spans exactly one decade; for
other spacings, and for merged segments, adjacent power laws did not meet
at the returned frequency.
---
 allantools/allantools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 61f90b3..4076fa2 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1914,8 +1914,8 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     else:
         f_nodes = np.array(
             [
-                1.0 / (10.0 * np.pi * filtered_tau[i]) *
-                (integral_values[i] / integral_values[i + 1]) ** (1.0 / (mus[i + 1] - mus[i]))
+                # intersection of the power laws of segments i and i+1
+                (hi[-(i + 2)] / hi[-(i + 1)]) ** (1.0 / (mus[i + 1] - mus[i]))
                 for i in range(mus.size - 1)
             ],
             dtype=float,
-- 
2.43.0


From eabd91980bbe724a741d98e4c862ea691174c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 10/18] fix: timmer_koenig_from_psd accepts odd numbers of
 samples

The mirrored half of the spectrum was one element short for odd n.
---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index e66332e..0b841a0 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -315,7 +315,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for j in range(1, n // 2 + 1):
         X[j] = (np.sqrt(Sx[j]) / 2.0) * (np.random.normal(0, 1) + 1j * np.random.normal(0, 1))
 
-    X[n // 2 + 1:] = np.conj(X[1:n // 2][::-1])
+    X[n // 2 + 1:] = np.conj(X[1:(n + 1) // 2][::-1])
 
     x = np.fft.ifft(X) * np.sqrt((n - 1) / timestep)
     x = x.real
-- 
2.43.0


From c5835e2b2b479cb3819d730767da8345703dac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 11/18] fix: timmer_koenig_from_psd has power at a frequency
 equal to the last node

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 0b841a0..0888c29 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -295,7 +295,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for i, f in enumerate(frequencies):
         if f_nodes.size > 0 and f < f_nodes[0]:
             Sy[i] = h_ext[0] * f ** alpha_ext[0]
-        elif f_nodes.size > 0 and f > f_nodes[-1]:
+        elif f_nodes.size > 0 and f >= f_nodes[-1]:
             Sy[i] = h_ext[-1] * f ** alpha_ext[-1]
         else:
             if f_nodes.size == 0:
-- 
2.43.0


From 4e368aeb07e3fb21e61d272d08e14cc219036680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 12/18] fix: greenhall_table2 accepts alpha=-4, whose row it
 contains

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 6c7cb2e..4c6ff5e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -687,7 +687,7 @@ def greenhall_table3(alpha, d):
 def greenhall_table2(alpha, d):
     """ Table 2 from [Greenhall2004]_ """
     row_idx = int(-alpha+2)  # map 2-> row0 and -4-> row6
-    assert(row_idx in [0, 1, 2, 3, 4, 5])
+    assert(row_idx in [0, 1, 2, 3, 4, 5, 6])
     col_idx = int(d-1)
     table2 = [
         # alpha = +2:
-- 
2.43.0


From d580711411b0971784abe5865a8718047ef21667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 13/18] fix: rn and b1 evaluate at tau = af/rate

The averaging factor was multiplied by the rate, so any rate other than 1
evaluated another averaging factor (or none).
---
 allantools/ci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 4c6ff5e..eccac97 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -143,10 +143,10 @@ def rn(x, af, rate):
         ratio of MVAR to AVAR
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/float(rate)], data_type='phase', rate=rate)
     oadev_x = devs[0]
     (mtaus, mdevs, errs, ns) = at.mdev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/float(rate)], data_type='phase', rate=rate)
     mdev_x = mdevs[0]
     return pow(mdev_x/oadev_x, 2)
 
@@ -198,7 +198,7 @@ def b1(x, af, rate):
 
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type="phase", rate=rate)
+        x, taus=[af/float(rate)], data_type="phase", rate=rate)
     oadev_x = devs[0]
     avar = pow(oadev_x, 2.0)
 
-- 
2.43.0


From 0f7d9212e48669f0c5140335be59ca3da09efe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 14/18] fix: b1 forms fractional frequency with the sampling
 rate

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index eccac97..5da69f1 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -203,7 +203,7 @@ def b1(x, af, rate):
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = np.diff(x)
+    y = np.diff(x)*rate
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From 2ea7c4ea9e8de651e6b4781e7b187563a2af786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 15/18] fix: Dataset.write_results writes gradev results

gradev returns a lower and an upper error array; halving the list raised
TypeError.
---
 allantools/dataset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 0c2c505..a82938a 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -194,15 +194,19 @@ class Dataset(object):
                        "{sigma:.{prec}e} "
                        "{maxsigma:.{prec}e} "
                        "\n")
+            err = self.out["stat_err"]
+            if isinstance(err, list):  # gradev: distances to both limits
+                err_lo, err_hi = err
+            else:
+                err_lo = err_hi = err / 2
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
                     af=int(self.out["taus"][i] / self.out["taus"][0]),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-                    minsigma=self.out["stat"][i] - self.out["stat_err"][i]/2,
+                    minsigma=self.out["stat"][i] - err_lo[i],
                     sigma=self.out["stat"][i],
-                    maxsigma=(self.out["stat"][i] +
-                              self.out["stat_err"][i]/2),
+                    maxsigma=self.out["stat"][i] + err_hi[i],
                     prec=digits-1,
                 ))
-- 
2.43.0


From 32f5372fca89a3a0bb40f25c6fa454d3b71b882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 16/18] fix: Dataset.write_results writes the averaging factor
 tau*rate

The AF column was the (truncated) ratio to the first tau, which is wrong
when the first tau is not 1/rate.
---
 allantools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index a82938a..9fa8cae 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -201,7 +201,7 @@ class Dataset(object):
                 err_lo = err_hi = err / 2
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(self.out["taus"][i] / self.out["taus"][0]),
+                    af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-- 
2.43.0


From 2354595ae733445251b4f5a742dcd052ed4247fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 17/18] fix: Plot.save writes its own figure, not the one
 opened last

---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index 85a201e..4d08999 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -111,4 +111,4 @@ class Plot(object):
     def save(self, f):
         """Save figure to file
         """
-        self.plt.savefig(f)
+        self.fig.savefig(f)
-- 
2.43.0


From 67720f7c9ed97690137bc5b3e6ef73c7d1dcfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 18/18] fix: psd2allan builds its frequency grids from integer
 indices

---
 allantools/allantools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 4076fa2..fc7d107 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1735,8 +1735,10 @@ def psd2allan(S_y, f=1.0, kind='adev', base=2):
         raise ValueError(np.ndarray)  # raise error
     oversamplingfactor = 4
     df0 = oversamplingfactor * df
-    f0 = np.arange(S_y.size * df0, step=df0)
-    f = np.arange(df, (S_y.size - 1) * df0 + df, df)
+    # integer index times step: arange() with a float step may give one point
+    # too many
+    f0 = df0 * np.arange(S_y.size)
+    f = df * np.arange(1, (S_y.size - 1) * oversamplingfactor + 1)
     S_y = interpolate.interp1d(f0, S_y, kind='cubic')(f)
     f = f / oversamplingfactor
 
-- 
2.43.0

