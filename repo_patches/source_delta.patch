From f64ab6d8eb1c871bb7a566b31bd3de9084c7b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:35 +0000
Subject: [PATCH 01/11] fix: recompute the time steps when the filter's time
 vector is replaced

KalmanFilter::SetTime stored the new times but kept the old time steps and
the old sizes of the mean and variance vectors. Filtering and predicting
after SetTime then used the spacing of the previous series, and wrote out of
bounds when the new series was longer.
---
 src/include/kfilter.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 1e17728..dd1c8c5 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -78,6 +78,10 @@ public:
     // Methods to set and get the data
     void SetTime(arma::vec& time) {
         time_ = time;
+        // the time steps, and the sizes of the Kalman mean and variance, follow the time vector
+        dt_ = time_(arma::span(1,time_.n_elem-1)) - time_(arma::span(0,time_.n_elem-2));
+        mean.zeros(time_.n_elem);
+        var.zeros(time_.n_elem);
     }
     arma::vec GetTime() {
         return time_;
-- 
2.43.0


From e945959dfaa39fb0bf7dff32a8f569488d26bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:31 +0000
Subject: [PATCH 02/11] fix: let the ZCAR model use its own moving average
 coefficients

The ZCAR class kept its coefficients in a member that hid the one its base
class reads, so a ZCAR model was evaluated as a plain CAR(p) model.
---
 src/include/carpack.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 5cb173f..417b2b6 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -331,7 +331,6 @@ public:
 protected:
     int p_; // Order of the CAR(p) process
     bool order_lorentzians_; // force the lorentzian centroids to be in order?
-private:
     arma::vec ma_coefs_;
 };
 
@@ -359,7 +358,6 @@ public:
     }
 private:
     double kappa_; // minimum frequency resolved by the observation times
-    arma::vec ma_coefs_;
 };
 
 /*
-- 
2.43.0


From 4bcf2bca17aa6d54c6a43c3f8f6eaa6e16533e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:12 +0000
Subject: [PATCH 03/11] fix: run a single walker untempered

With one walker the temperature ladder held only its upper end, so the only
chain, which is the one recorded, sampled the posterior at temperature 100.
---
 src/carmcmc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index 444ab1e..e03558d 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -92,6 +92,8 @@ RunCarmaSampler(int sample_size, int burnin, std::vector<double> time, std::vect
     double max_temperature = 100.0;
     
     arma::vec temp_ladder = arma::linspace<arma::vec>(0.0, log(max_temperature), nwalkers);
+    // linspace returns the upper end when asked for a single point, but the coolest chain is always untempered
+    temp_ladder(0) = 0.0;
     temp_ladder = arma::exp(temp_ladder);
     
     Ensemble<CARp> CarEnsemble;
-- 
2.43.0


From c2800f3755aff185628219433b5540922d120977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:12 +0000
Subject: [PATCH 04/11] fix: draw from the bounded power law with slope -1

The general inversion divides by slope + 1, and returned 1 for every draw.
For this slope the logarithm of the variate is uniform.
---
 src/random.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/random.cpp b/src/random.cpp
index bfe022c..8bea127 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -144,6 +144,10 @@ double RandomGenerator::powerlaw(double lower, double upper, double slope)
 	double unif = uniform(0.0, 1.0);
 	
 	// Now do transformation Y -> X such that X ~ Powerlaw(slope,lower,upper)
+	if (slope == -1.0) {
+		// log(X) is uniformly distributed
+		return lower * pow(upper / lower, unif);
+	}
 	double power = 1.0 / (slope + 1.0);
 	double base_value= (pow(upper, slope+1) - pow(lower, slope+1)) * unif + pow(lower,slope+1);
 	
-- 
2.43.0


From 76ca0d9a02c1c3d1b87977e119431204914005e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:10 +0000
Subject: [PATCH 05/11] fix: let a Gibbs step report whether its parameter is
 tracked

---
 src/include/steps.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/steps.hpp b/src/include/steps.hpp
index 5bb3758..f23c29d 100644
--- a/src/include/steps.hpp
+++ b/src/include/steps.hpp
@@ -99,6 +99,11 @@ public:
     BaseParameter* GetParPointer() {
         return &parameter_;
     }
+    
+    // Return a boolean, whether parameter is tracked
+    bool ParameterTrack() {
+        return parameter_.Track();
+    }
 	
 private:
 	/// Reference to parameter associated with step instance.
-- 
2.43.0


From e5db87e62689dab17db6ab5e57fdedb602109ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:23 +0000
Subject: [PATCH 06/11] fix: make get_mle with one job return its best trial

The trials were left in a map object, which cannot be indexed, so every
single-process call raised a TypeError.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index bcc5a9c..50806a3 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -109,7 +109,7 @@ class CarmaModel(object):
         args = [(p, q, self.time, self.y, self.ysig)] * ntrials
 
         if njobs == 1:
-            MLEs = map(_get_mle_single, args)
+            MLEs = list(map(_get_mle_single, args))
         else:
             # use multiple processors
             pool = multiprocessing.Pool(njobs)
-- 
2.43.0


From c328c3db82a45c9c316949df26bb598c7ddcf54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:23 +0000
Subject: [PATCH 07/11] fix: respect qmax when choosing the order

The maximum MA order was accepted but never used, so all q < p were tried.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 50806a3..4e93e29 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -162,7 +162,7 @@ class CarmaModel(object):
         if pqlist is None:
             pqlist = []
             for p in range(1, pmax+1):
-                for q in range(p):
+                for q in range(min(p, qmax + 1)):
                     pqlist.append((p, q))
 
         MLEs = []
-- 
2.43.0


From c55c2a58e6d862808c4a5fa346290e425b765029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:23 +0000
Subject: [PATCH 08/11] fix: do not truncate a generated process at integer
 times

The values were stored with the type of the time array, so integer times
rounded every value towards zero.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 4e93e29..1be2f28 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1229,7 +1229,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     kalman_var = np.real((rotated_MA_coefs * PredictionVar * rotated_MA_coefs.H).item())
 
     # simulate the first time series value
-    y = np.empty_like(time)
+    y = np.empty(time.size)
     y[0] = np.random.normal(kalman_mean, np.sqrt(kalman_var))
 
     # Initialize the innovations, i.e., the KF residuals
-- 
2.43.0


From 94bb0ebd5bbaf2a2caf7d06329a92d329b0a9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:23 +0000
Subject: [PATCH 09/11] fix: accept a list of p MA coefficients in
 carma_process

Lists were only turned into arrays when shorter than the number of AR roots.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 1be2f28..2f6333e 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1205,7 +1205,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     Jvector = solve(EigenMat, Rvector)  # J = inv(E) * R
 
     # Compute the vector of moving average coefficients in the rotated state.
-    rotated_MA_coefs = ma_coefs.dot(EigenMat)
+    rotated_MA_coefs = np.dot(ma_coefs, EigenMat)
 
     # Calculate the stationary covariance matrix of the state vector
     StateVar = np.empty((p, p), dtype=complex)
-- 
2.43.0


From 245e670eaefda4e655f3359c4ebcc4f212b76add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:49 +0000
Subject: [PATCH 10/11] fix: sort the times of a generated CAR(1) process too

carma_process sorted its times only after handing p = 1 on to car1_process,
so unsorted times gave negative time steps there.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 2f6333e..7aa1379 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1160,6 +1160,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     except ValueError:
         "Size of ma_coefs must be less or equal to size of ar_roots."
 
+    time.sort()
     p = len(ar_roots)
 
     if p == 1:
@@ -1172,7 +1173,6 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
         ma_coefs = np.resize(np.array(ma_coefs), len(ar_roots))
         ma_coefs[q:] = 0.0
 
-    time.sort()
     # make sure process is stationary
     try:
         np.any(ar_roots.real < 0)
-- 
2.43.0


From 7dacb55f8ec621092e88770f79f488ee5c3d607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:08 +0000
Subject: [PATCH 11/11] fix: add_mle needs an integer number of quadratic
 factors

range() rejects the float that true division gives under Python 3, so
adding a maximum-likelihood estimate to a sample always failed.
---
 src/carmcmc/carma_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 7aa1379..35a920d 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -339,7 +339,7 @@ class CarmaSample(samplers.MCMCSample):
         psd_width = np.zeros(self.p)
         psd_cent = np.zeros(self.p)
 
-        for i in range(self.p / 2):
+        for i in range(self.p // 2):
             quad1 = quad_coefs[2 * i]
             quad2 = quad_coefs[2 * i + 1]
 
@@ -373,7 +373,7 @@ class CarmaSample(samplers.MCMCSample):
         else:
             quad_coefs = np.exp(MLE.x[3 + self.p:])
             ma_roots = np.empty(quad_coefs.size, dtype=complex)
-            for i in range(self.q / 2):
+            for i in range(self.q // 2):
                 quad1 = quad_coefs[2 * i]
                 quad2 = quad_coefs[2 * i + 1]
 
-- 
2.43.0

