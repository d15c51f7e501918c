From 06f372a1791b861afccd17ca582019489cee8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:03 +0000
Subject: [PATCH 01/36] fix: compute the rotated input vector of the Kalman
 filter in closed form

Solving the Vandermonde system numerically loses all digits for p >= 5 or
when the time unit is far from the sampling interval.
---
 src/kfilter.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index 77696c3..b6dc1c8 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -148,14 +148,18 @@ void KalmanFilterp::Reset() {
 		EigenMat.row(i) = strans(arma::pow(omega_, i));
 	}
     
-	// Input vector under original state space representation
-	arma::cx_vec Rvector = arma::zeros<arma::cx_vec>(p_);
-	Rvector(p_-1) = 1.0;
-    
-	// Transform the input vector to the rotated state space representation.
-	// The notation R and J comes from Belcher et al. (1994).
-	arma::cx_vec Jvector(p_);
-	Jvector = arma::solve(EigenMat, Rvector);
+	// Transform the input vector (0, ..., 0, 1) to the rotated state space representation.
+	// The notation J comes from Belcher et al. (1994). EigenMat is a Vandermonde matrix, so
+	// the solution of EigenMat * J = (0, ..., 0, 1) is known in closed form; solving the
+	// system numerically is unstable for large p or time units far from the sampling interval.
+	arma::cx_vec Jvector = arma::ones<arma::cx_vec>(p_);
+	for (std::uint64_t i=0; i<p_; i++) {
+		for (std::uint64_t j=0; j<p_; j++) {
+			if (j != i) {
+				Jvector(i) /= omega_(i) - omega_(j);
+			}
+		}
+	}
 	
 	// Transform the moving average coefficients to the space spanned by EigenMat.
 
-- 
2.43.0


From 498a1896fc1dd8a67b95a65e6009de6853fa1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:55 +0000
Subject: [PATCH 02/36] fix: predict and simulate at the time of a noise-free
 measurement

The interpolation divided by a zero variance and returned NaN, also when a
time was simulated twice.
---
 src/include/kfilter.hpp |  4 ++++
 src/kfilter.cpp         | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 1e17728..7000702 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -152,6 +152,10 @@ public:
             // first simulate the value at time(i)
             std::pair<double, double> ypredict = this->Predict(time(i));
             ysimulated(i) = RandGen.normal(ypredict.first, sqrt(ypredict.second));
+            if (ypredict.second == 0.0) {
+                // the value at this time is already known exactly, so there is nothing to insert
+                continue;
+            }
             // find the index where time_[insert_idx-1] < time(i) < time_[insert_idx]
             while (time_(insert_idx) < time(i)) {
                 insert_idx++;
diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index b6dc1c8..a6bc8f2 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -82,6 +82,11 @@ std::pair<double, double> KalmanFilter1::Predict(double time) {
             break;
         }
     }
+    
+    if ((ipredict < time_.n_elem) && (time == time_(ipredict)) && (yerr_(ipredict) == 0.0)) {
+        // the process was measured at this time without error, so its value is known
+        return std::pair<double, double>(y_(ipredict), 0.0);
+    }
         
     // Run the Kalman filter up to the point time_[ipredict-1]
     Reset();
@@ -231,6 +236,11 @@ std::pair<double, double> KalmanFilterp::Predict(double time) {
         }
     }
     
+    if ((ipredict < time_.n_elem) && (time == time_(ipredict)) && (yerr_(ipredict) == 0.0)) {
+        // the process was measured at this time without error, so its value is known
+        return std::pair<double, double>(y_(ipredict), 0.0);
+    }
+    
     // Run the Kalman filter up to the point time_[ipredict-1]
     Reset();
     for (std::uint64_t i=1; i<ipredict; i++) {
-- 
2.43.0


From 788f134507b3b4131e7d1ecfe110f75f396334a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:24 +0000
Subject: [PATCH 03/36] fix: return simulated values in the order of the
 requested times

---
 src/include/kfilter.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 7000702..0ae18f7 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -140,7 +140,9 @@ public:
         
         arma::vec ysimulated(time.n_elem);
         
-        time = arma::sort(time);
+        // the values are simulated in order of increasing time
+        arma::uvec time_order = arma::sort_index(time);
+        time = time.elem(time_order);
         unsigned int insert_idx = 0;
         arma::vec tinsert(1);
         arma::vec dt_insert(1);
@@ -184,7 +186,11 @@ public:
         mean.zeros(time_.n_elem);
         var.zeros(time_.n_elem);
         
-        return arma::conv_to<std::vector<double> >::from(ysimulated);
+        // return the values in the same order as the input times
+        arma::vec yreturned(ysimulated.n_elem);
+        yreturned.elem(time_order) = ysimulated;
+        
+        return arma::conv_to<std::vector<double> >::from(yreturned);
     }
     
     // Methods needed for interpolation and backcasting
-- 
2.43.0


From 7b73f418f095e9f1e55dd85bfec1d9fa97244eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:49 +0000
Subject: [PATCH 04/36] fix: use the Belcher et al. moving average terms in the
 ZCAR model

ZCAR filled a member that hid the one used by CARp, so its density and
starting values were those of a CAR(p) process.
---
 src/include/carpack.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 5cb173f..1969e75 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -331,8 +331,7 @@ public:
 protected:
     int p_; // Order of the CAR(p) process
     bool order_lorentzians_; // force the lorentzian centroids to be in order?
-private:
-    arma::vec ma_coefs_;
+    arma::vec ma_coefs_; // fixed moving average coefficients
 };
 
 /*
@@ -359,7 +358,6 @@ public:
     }
 private:
     double kappa_; // minimum frequency resolved by the observation times
-    arma::vec ma_coefs_;
 };
 
 /*
-- 
2.43.0


From e6cb8e1ac598e6bb0641e67dd4ad440fa0a754b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:49 +0000
Subject: [PATCH 05/36] fix: lift the CAR(1) prior bounds in maximum-likelihood
 mode

---
 src/carpack.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 682a4aa..7c35361 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -115,6 +115,8 @@ arma::vec CAR1::SetStartingValue(arma::vec init)
 
 bool CAR1::CheckPriorBounds(arma::vec theta)
 {
+    if (ignore_prior_) {return true;}
+
     double ysigma = theta(0);
     double measerr_scale = theta(1);
     double omega = exp(theta(3));
-- 
2.43.0


From 6516705aa8070a28b46c8d3434a3a725a3a8f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:49 +0000
Subject: [PATCH 06/36] fix: keep the CAR(1) starting values inside the prior
 bounds

For short series the starting rate could lie below the smallest allowed
frequency, so that the chain started at zero density. The upper bound
compared a logarithm with a frequency.
---
 src/carpack.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 7c35361..ed14a37 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -42,7 +42,7 @@ arma::vec CAR1::StartingValue()
 	// Initialize the standard deviation of the CAR(1) process
 	// by drawing from its prior
 	car1_stdev_start = RandGen.scaled_inverse_chisqr(y_.n_elem-1, arma::var(y_));
-	car1_stdev_start = sqrt(car1_stdev_start);
+	car1_stdev_start = std::min(sqrt(car1_stdev_start), 0.99 * max_stdev_);
     
     // Get initial value of the time series mean
     double mu = RandGen.normal(arma::mean(y_), car1_stdev_start / y_.n_elem);
@@ -53,7 +53,8 @@ arma::vec CAR1::StartingValue()
 	
     arma::vec dt = time_(arma::span(1,time_.n_elem-1)) - time_(arma::span(0,time_.n_elem-2));
 	log_omega_start = -1.0 * log(arma::median(dt) * RandGen.uniform( 1.0, 50.0 ));
-	log_omega_start = std::min(log_omega_start, max_freq_);
+	log_omega_start = std::min(log_omega_start, log(0.99 * max_freq_));
+	log_omega_start = std::max(log_omega_start, log(1.01 * min_freq_));
 	
 	sigma = car1_stdev_start * sqrt(2.0 * exp(log_omega_start));
 	
-- 
2.43.0


From 58d47f92d9492cd624016ed14b554a3c5f8a1a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:02 +0000
Subject: [PATCH 07/36] fix: give the step and parameter base classes virtual
 destructors

Both are deleted through base-class pointers by the sampler and the
ensemble, which is undefined behaviour without a virtual destructor.
---
 src/include/parameters.hpp | 3 +++
 src/include/steps.hpp      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/include/parameters.hpp b/src/include/parameters.hpp
index 9a5f456..a7c28ee 100644
--- a/src/include/parameters.hpp
+++ b/src/include/parameters.hpp
@@ -36,6 +36,9 @@ public:
     BaseParameter(bool track, std::string label, double temperature=1.0) :
     track_(track), label_(label), temperature_(temperature) {}
     
+    // Parameters are deleted through pointers to their base classes
+    virtual ~BaseParameter() {}
+    
 	// Return the current value of the log-posterior. Useful for
 	// Metropolis steps so we don't have to compute the log-posterior
 	// for the current value of the parameter more than once
diff --git a/src/include/steps.hpp b/src/include/steps.hpp
index 5bb3758..85c1b14 100644
--- a/src/include/steps.hpp
+++ b/src/include/steps.hpp
@@ -47,6 +47,9 @@ std::string to_string (const T& t) {
 // The Step class will never be instantiated directly.
 class Step {
 public:
+	// Steps are deleted through pointers to this class
+	virtual ~Step() {}
+
 	virtual void DoStep() = 0;
 	
 	// Should return the label of the parameter associated with the step instance.
-- 
2.43.0


From 260dd4dbafc5b612ea5ca8e9322cf5c34474cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:02 +0000
Subject: [PATCH 08/36] fix: sample the posterior itself when only one
 temperature is used

A single walker was given the highest temperature of the ladder.
---
 src/carmcmc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index 444ab1e..c097bff 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -93,6 +93,7 @@ RunCarmaSampler(int sample_size, int burnin, std::vector<double> time, std::vect
     
     arma::vec temp_ladder = arma::linspace<arma::vec>(0.0, log(max_temperature), nwalkers);
     temp_ladder = arma::exp(temp_ladder);
+    temp_ladder(0) = 1.0; // linspace returns the last value when there is only one walker
     
     Ensemble<CARp> CarEnsemble;
     // Add the parameters to the ensemble, starting with the coolest chain
-- 
2.43.0


From 4b9f80dba2afcc479f6cc56b6acc74d4938a4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:02 +0000
Subject: [PATCH 09/36] fix: draw from a bounded power law with slope -1

---
 src/random.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/random.cpp b/src/random.cpp
index bfe022c..5b0e258 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -143,6 +143,11 @@ double RandomGenerator::powerlaw(double lower, double upper, double slope)
 	// First draw Y ~ Uniform(0,1)
 	double unif = uniform(0.0, 1.0);
 	
+	if (slope == -1.0) {
+		// the logarithm of X is uniformly distributed
+		return lower * pow(upper / lower, unif);
+	}
+	
 	// Now do transformation Y -> X such that X ~ Powerlaw(slope,lower,upper)
 	double power = 1.0 / (slope + 1.0);
 	double base_value= (pow(upper, slope+1) - pow(lower, slope+1)) * unif + pow(lower,slope+1);
-- 
2.43.0


From de4d7ed90410b52173797906c56041200e234618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:13 +0000
Subject: [PATCH 10/36] fix: run get_mle in one process and skip undefined
 trials

map() returns an iterator, which cannot be indexed, and a first trial with
a NaN likelihood was never replaced by a better one.
---
 src/carmcmc/carma_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index bcc5a9c..15b4cf6 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -109,7 +109,7 @@ class CarmaModel(object):
         args = [(p, q, self.time, self.y, self.ysig)] * ntrials
 
         if njobs == 1:
-            MLEs = map(_get_mle_single, args)
+            MLEs = list(map(_get_mle_single, args))
         else:
             # use multiple processors
             pool = multiprocessing.Pool(njobs)
@@ -120,7 +120,7 @@ class CarmaModel(object):
 
         best_MLE = MLEs[0]
         for MLE in MLEs:
-            if MLE.fun < best_MLE.fun:  # note that MLE.fun is -loglik since we use scipy.optimize.minimize
+            if MLE.fun < best_MLE.fun or np.isnan(best_MLE.fun):  # note that MLE.fun is -loglik since we use scipy.optimize.minimize
                 # new MLE found, save this value
                 best_MLE = MLE
 
-- 
2.43.0


From 4eb60b6b4180ae015b6af3025ccdb667aafc8840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:13 +0000
Subject: [PATCH 11/36] fix: honour qmax in choose_order

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 15b4cf6..cfa3dc4 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -162,7 +162,7 @@ class CarmaModel(object):
         if pqlist is None:
             pqlist = []
             for p in range(1, pmax+1):
-                for q in range(p):
+                for q in range(min(p, qmax + 1)):
                     pqlist.append((p, q))
 
         MLEs = []
-- 
2.43.0


From a06956752a7c547f8c82ae1a797d8bdbe1b00a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:13 +0000
Subject: [PATCH 12/36] fix: use integer division in add_mle

---
 src/carmcmc/carma_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index cfa3dc4..05ed11f 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -339,7 +339,7 @@ class CarmaSample(samplers.MCMCSample):
         psd_width = np.zeros(self.p)
         psd_cent = np.zeros(self.p)
 
-        for i in range(self.p / 2):
+        for i in range(self.p // 2):
             quad1 = quad_coefs[2 * i]
             quad2 = quad_coefs[2 * i + 1]
 
@@ -373,7 +373,7 @@ class CarmaSample(samplers.MCMCSample):
         else:
             quad_coefs = np.exp(MLE.x[3 + self.p:])
             ma_roots = np.empty(quad_coefs.size, dtype=complex)
-            for i in range(self.q / 2):
+            for i in range(self.q // 2):
                 quad1 = quad_coefs[2 * i]
                 quad2 = quad_coefs[2 * i + 1]
 
-- 
2.43.0


From efb6b6386780a55abe16f56d89c8e67f9361ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:13 +0000
Subject: [PATCH 13/36] fix: leave the prior out of the log-likelihoods of
 CARMA samples

The values stored as 'loglik', and the DIC computed from them, contained
the log prior of the measurement error scale.
---
 src/carmcmc/carma_pack.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 05ed11f..fbcd809 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -305,12 +305,10 @@ class CarmaSample(samplers.MCMCSample):
         # add the log-likelihoods
         print("Calculating log-likelihoods...")
         loglik = np.empty(logpost.size)
-        sampler.SetMLE(True)
         for i in range(logpost.size):
             std_theta = carmcmcLib.vecD()
             std_theta.extend(trace[i, :])
-            # loglik[i] = logpost[i] - sampler.getLogPrior(std_theta)
-            loglik[i] = sampler.getLogDensity(std_theta)
+            loglik[i] = logpost[i] - sampler.getLogPrior(std_theta)
 
         self._samples['loglik'] = loglik
 
-- 
2.43.0


From d0e0b2ad64c4db9962ded3a61f9e4a6110c09bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:13 +0000
Subject: [PATCH 14/36] fix: plot a CAR(1) power spectrum from fewer samples

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index fbcd809..6ba0240 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -976,7 +976,7 @@ class Car1Sample(CarmaSample):
                 "nsamples must be less than the total number of MCMC samples."
 
             nsamples0 = sigmas.shape[0]
-            index = np.arange(nsamples) * (nsamples0 / nsamples)
+            index = (np.arange(nsamples) * (nsamples0 / nsamples)).astype(int)
             sigmas = sigmas[index]
             log_omegas = log_omegas[index]
 
-- 
2.43.0


From ecd02cc785356db92617af5827c334670af78f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:13 +0000
Subject: [PATCH 15/36] fix: use a random posterior draw for CAR(1) predictions
 when asked

---
 src/carmcmc/carma_pack.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 6ba0240..8c04809 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -932,6 +932,12 @@ class Car1Sample(CarmaSample):
             sigsqr = np.median(self._samples['sigma']) ** 2
             mu = np.median(self._samples['mu'])
             log_omega = np.median(self._samples['log_omega'])
+        elif bestfit == 'random':
+            # use a random draw from the posterior
+            random_index = np.random.randint(self._samples['mu'].shape[0])
+            sigsqr = (self._samples['sigma'][random_index] ** 2)[0]
+            mu = self._samples['mu'][random_index][0]
+            log_omega = self._samples['log_omega'][random_index][0]
         else:
             # use posterior mean as the best-fit
             sigsqr = np.mean(self._samples['sigma'] ** 2)
-- 
2.43.0


From abf19b566c55dd9ae90f9d4154f73bdbcab6d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:13 +0000
Subject: [PATCH 16/36] fix: assess the fit of short series and of any time
 origin

The autocorrelation plot failed for 50 or fewer measurements, and the
interpolation started at a point that depended on the origin of time.
---
 src/carmcmc/carma_pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 8c04809..6f0d3af 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -699,7 +699,7 @@ class CarmaSample(samplers.MCMCSample):
 
         fig = plt.figure()
         # compute the marginal mean and variance of the predicted values
-        time_predict = np.linspace(1.001 * self.time.min(), self.time.max(), nplot)
+        time_predict = np.linspace(self.time.min(), self.time.max(), nplot)
         predicted_mean, predicted_var = self.predict(time_predict, bestfit=bestfit)
         predicted_low = predicted_mean - np.sqrt(predicted_var)
         predicted_high = predicted_mean + np.sqrt(predicted_var)
@@ -740,7 +740,7 @@ class CarmaSample(samplers.MCMCSample):
         # plot the autocorrelation function of the residuals and compare with the 95% confidence intervals for white
         # noise
         plt.subplot(223)
-        maxlag = 50
+        maxlag = min(50, self.time.size - 1)
         wnoise_upper = 1.96 / np.sqrt(self.time.size)
         wnoise_lower = -1.96 / np.sqrt(self.time.size)
         plt.fill_between([0, maxlag], wnoise_upper, wnoise_lower, facecolor='grey')
-- 
2.43.0


From af9834772ed550f4b239ac7bec61b98b2eb58491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:41 +0000
Subject: [PATCH 17/36] fix: generate CARMA paths at integer or unsorted times
 and for one complex-typed root

Integer times truncated the path to integers, a single root stored in a
complex array gave a complex path, and the caller's times were sorted in
place.
---
 src/carmcmc/carma_pack.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 6f0d3af..65df831 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1166,9 +1166,16 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
 
     p = len(ar_roots)
 
+    # the process is generated in order of increasing time
+    time_order = np.argsort(time, kind='stable')
+    time = np.asarray(time)[time_order]
+    y = np.empty(time.size)
+    path = np.empty(time.size)  # the generated values in the order of the input times
+
     if p == 1:
         # generate a CAR(1) process
-        return car1_process(time, sigsqr, -1.0 / ar_roots.item())
+        path[time_order] = car1_process(time, sigsqr, -1.0 / np.real(ar_roots[0]))
+        return path
 
     if len(ma_coefs) < p:
         # add extra zeros to end of ma_coefs
@@ -1176,7 +1183,6 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
         ma_coefs = np.resize(np.array(ma_coefs), len(ar_roots))
         ma_coefs[q:] = 0.0
 
-    time.sort()
     # make sure process is stationary
     try:
         np.any(ar_roots.real < 0)
@@ -1233,7 +1239,6 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     kalman_var = np.real((rotated_MA_coefs * PredictionVar * rotated_MA_coefs.H).item())
 
     # simulate the first time series value
-    y = np.empty_like(time)
     y[0] = np.random.normal(kalman_mean, np.sqrt(kalman_var))
 
     # Initialize the innovations, i.e., the KF residuals
@@ -1260,7 +1265,8 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
         # finally, update the innovation
         innovation = y[i] - kalman_mean
 
-    return y
+    path[time_order] = y
+    return path
 
 ##################
 # Deprecated
-- 
2.43.0


From 2583b8bf656a45fd4761315b7fa472b2b3315c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:41 +0000
Subject: [PATCH 18/36] fix: strip the line end from parameter names read from
 files

---
 src/carmcmc/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/samplers.py b/src/carmcmc/samplers.py
index 2ba43ac..c2f0403 100644
--- a/src/carmcmc/samplers.py
+++ b/src/carmcmc/samplers.py
@@ -64,7 +64,7 @@ class MCMCSample(object):
         # TODO: put in exceptions to make sure files are ready correctly
         for fname in filename:
             file = open(fname, 'r')
-            name = file.readline()
+            name = file.readline().strip()
             # Grab the MCMC output
             trace = np.genfromtxt(fname, skip_header=1)
             if name not in self._samples:
-- 
2.43.0


From fcf4b8d0dc72d7acc3b947ef51bd42a68bca95d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:52 +0000
Subject: [PATCH 19/36] fix: compare Lorentzian centroids with a relative
 tolerance

The absolute tolerance of 1e-8 switched the ordering constraint off for
series whose time unit makes the frequencies that small.
---
 src/carpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index ed14a37..4ef3d63 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -357,7 +357,7 @@ bool CARp::CheckPriorBounds(arma::vec theta)
         // Make sure the Lorentzian centroids are still in decreasing order
         for (std::uint64_t i=1; i<lorentz_cent.n_elem; i++) {
             double lorentz_cent_difference = lorentz_cent(i) - lorentz_cent(i-1);
-            if (lorentz_cent_difference > 1e-8) {
+            if (lorentz_cent_difference > 1e-8 * lorentz_cent(i-1)) {
                 // Lorentzians are not in decreasing order, reject this proposal
                 prior_satisfied = false;
             }
-- 
2.43.0


From 520e4aafe9a891314f720723ed267be54144ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:48 +0000
Subject: [PATCH 20/36] fix: add the conjugate of every root with a positive
 centroid

Centroids below 1e-10 in the chosen time unit were treated as zero.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 65df831..62d3b43 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1052,7 +1052,7 @@ def get_ar_roots(qpo_width, qpo_centroid):
     ar_roots = []
     for i in range(len(qpo_centroid)):
         ar_roots.append(qpo_width[i] + 1j * qpo_centroid[i])
-        if qpo_centroid[i] > 1e-10:
+        if qpo_centroid[i] > 0:
             # lorentzian is centered at a frequency > 0, so add complex conjugate of this root
             ar_roots.append(np.conjugate(ar_roots[-1]))
     if len(qpo_width) - len(qpo_centroid) == 1:
-- 
2.43.0


From 55ecaf02f6f0d7f59ae6aa9eb35752d28106bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:02 +0000
Subject: [PATCH 21/36] fix: generate CARMA paths from moving-average lists and
 in any time unit

A list of p moving-average coefficients has no dot method, and solving the
Vandermonde system loses all accuracy for many roots or small frequencies.
---
 src/carmcmc/carma_pack.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 62d3b43..a3efd4c 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1177,11 +1177,8 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
         path[time_order] = car1_process(time, sigsqr, -1.0 / np.real(ar_roots[0]))
         return path
 
-    if len(ma_coefs) < p:
-        # add extra zeros to end of ma_coefs
-        q = len(ma_coefs)
-        ma_coefs = np.resize(np.array(ma_coefs), len(ar_roots))
-        ma_coefs[q:] = 0.0
+    # add extra zeros to end of ma_coefs
+    ma_coefs = np.append(ma_coefs, np.zeros(p - len(ma_coefs)))
 
     # make sure process is stationary
     try:
@@ -1207,12 +1204,9 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     for k in range(2, p):
         EigenMat[k, :] = ar_roots ** k
 
-    # Input vector under the original state space representation
-    Rvector = np.zeros(p, dtype=complex)
-    Rvector[-1] = 1.0
-
-    # Input vector under rotated state space representation
-    Jvector = solve(EigenMat, Rvector)  # J = inv(E) * R
+    # Input vector (0, ..., 0, 1) under rotated state space representation. EigenMat is a Vandermonde matrix, so the
+    # solution of EigenMat * J = (0, ..., 0, 1) is known in closed form, while solving the system numerically is unstable.
+    Jvector = np.array([1.0 / np.prod(ar_roots[k] - np.delete(ar_roots, k)) for k in range(p)])
 
     # Compute the vector of moving average coefficients in the rotated state.
     rotated_MA_coefs = ma_coefs.dot(EigenMat)
-- 
2.43.0


From 17126315a0ae71a66b818d885c26d8a0e11bc6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:18 +0000
Subject: [PATCH 22/36] fix: do not store samples of untracked parameters
 updated by Gibbs steps

---
 src/include/steps.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/steps.hpp b/src/include/steps.hpp
index 85c1b14..838b4b5 100644
--- a/src/include/steps.hpp
+++ b/src/include/steps.hpp
@@ -98,6 +98,11 @@ public:
 		return parameter_.StringValue();
 	}
     
+    // Return if parameter is tracked.
+    bool ParameterTrack() {
+        return parameter_.Track();
+    }
+    
     // Return a pointer to the parameter
     BaseParameter* GetParPointer() {
         return &parameter_;
-- 
2.43.0


From fdb5f1a9ff9ea95a112241357ac7fded9e265f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:18 +0000
Subject: [PATCH 23/36] fix: report a zero Metropolis ratio for proposals
 outside the support

---
 src/include/steps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/steps.hpp b/src/include/steps.hpp
index 838b4b5..5fa5cc6 100644
--- a/src/include/steps.hpp
+++ b/src/include/steps.hpp
@@ -154,6 +154,7 @@ public:
 		if (!arma::is_finite(alpha_)) {
 			// New value of the log-posterior is not finite, so reject this
 			// proposal
+			alpha_ = 0.0;
 			return false;
 		}
 		
-- 
2.43.0


From 054022da1a1d712edc77aa549dc1da678c77a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:52 +0000
Subject: [PATCH 24/36] fix: recognise the current value exactly in the stretch
 move density

---
 src/include/proposals.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/proposals.hpp b/src/include/proposals.hpp
index a27580d..6d50cab 100644
--- a/src/include/proposals.hpp
+++ b/src/include/proposals.hpp
@@ -233,9 +233,7 @@ public:
 		arma::vec current_value = this->ensemble_[this->parameter_index_].Value();
 		
 		// Does the proposed parameter value = current parameter value?
-        arma::vec etol(new_value.n_elem);
-        etol.fill(1e-10);
-		arma::uvec equal_vector = (arma::abs(current_value - new_value) < etol);
+		arma::uvec equal_vector = (current_value == new_value);
 		
 		if (arma::sum(equal_vector) == equal_vector.size()) {
 			// We are calculating the density of the proposed -> current transition kernel,
-- 
2.43.0


From a480c96d24b2e7a663e5cbf414414935f3ec6fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:59 +0000
Subject: [PATCH 25/36] fix: compute the sample variance of series with a large
 mean accurately

---
 src/carmcmc.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index c097bff..e6a2899 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -34,8 +34,11 @@ RunCar1Sampler(int sample_size, int burnin, std::vector<double> time, std::vecto
     int p = 1;    
     double sum = std::accumulate(y.begin(), y.end(), 0.0);
     double mean = sum / y.size();
-    double sq_sum = std::inner_product(y.begin(), y.end(), y.begin(), 0.0);
-    double var = (sq_sum / y.size() - mean * mean);
+    double sq_sum = 0.0;
+    for (std::size_t i=0; i<y.size(); i++) {
+        sq_sum += (y[i] - mean) * (y[i] - mean);
+    }
+    double var = sq_sum / y.size();
 
 	double max_stdev = 10.0 * std::sqrt(var); // For prior: maximum standard-deviation of CAR(1) process
         
@@ -84,8 +87,11 @@ RunCarmaSampler(int sample_size, int burnin, std::vector<double> time, std::vect
     assert(p > 1);
     double sum = std::accumulate(y.begin(), y.end(), 0.0);
     double mean = sum / y.size();
-    double sq_sum = std::inner_product(y.begin(), y.end(), y.begin(), 0.0);
-    double var = (sq_sum / y.size() - mean * mean);
+    double sq_sum = 0.0;
+    for (std::size_t i=0; i<y.size(); i++) {
+        sq_sum += (y[i] - mean) * (y[i] - mean);
+    }
+    double var = sq_sum / y.size();
     double max_stdev = 10.0 * sqrt(var);
     
     // Set the temperature ladder. The logarithms of the temperatures are on a linear grid
-- 
2.43.0


From 85b7c6354b8a804cd3187bff0ec6bdc59c631269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:25 +0000
Subject: [PATCH 26/36] fix: scale the initial proposal of the process standard
 deviation as a standard deviation

---
 src/carmcmc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index e6a2899..170d9e1 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -53,7 +53,7 @@ RunCar1Sampler(int sample_size, int burnin, std::vector<double> time, std::vecto
 	arma::mat prop_covar(3+p,3+p);
 	prop_covar.eye();
 	prop_covar.diag() = prop_covar.diag() * 0.01 * 0.01;
-    prop_covar(0,0) = 2.0 * var * var / y.size();
+    prop_covar(0,0) = 0.5 * var / y.size(); // the first parameter is the standard deviation, not the variance
     prop_covar(2,2) = var / y.size();
     
 	// Instantiate base proposal object
@@ -139,7 +139,7 @@ RunCarmaSampler(int sample_size, int burnin, std::vector<double> time, std::vect
 	arma::mat prop_covar(nparams,nparams);
 	prop_covar.eye();
 	prop_covar.diag() = prop_covar.diag() * 0.01 * 0.01;
-    prop_covar(0,0) = 2.0 * var * var / y.size();
+    prop_covar(0,0) = 0.5 * var / y.size(); // the first parameter is the standard deviation, not the variance
     prop_covar(2,2) = var / y.size();
     
 	// Instantiate base proposal object
-- 
2.43.0


From fd8bd24696ead92b902579a9a7138315ea7326b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:04 +0000
Subject: [PATCH 27/36] fix: accept integer and single-precision arrays of
 times and measurements

CarmaModel, predict and simulate raised a TypeError when the time or
measurement arrays did not hold double-precision floats.
---
 src/carmcmc/carma_pack.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index a3efd4c..c9cc386 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -35,12 +35,9 @@ class CarmaModel(object):
         u_idx = s_idx[u_idx]
 
         # convert input to std::vector<double> extension class
-        self._time = carmcmcLib.vecD()
-        self._time.extend(time[u_idx])
-        self._y = carmcmcLib.vecD()
-        self._y.extend(y[u_idx])
-        self._ysig = carmcmcLib.vecD()
-        self._ysig.extend(ysig[u_idx])
+        self._time = arrayToVec(time[u_idx])
+        self._y = arrayToVec(y[u_idx])
+        self._ysig = arrayToVec(ysig[u_idx])
 
         # save parameters
         self.time = time[u_idx]
@@ -789,14 +786,14 @@ class CarmaSample(samplers.MCMCSample):
         kfilter, mu = self.makeKalmanFilter(bestfit)
         kfilter.Filter()
         if np.isscalar(time):
-            pred = kfilter.Predict(time)
+            pred = kfilter.Predict(float(time))
             yhat = pred.first
             yhat_var = pred.second
         else:
             yhat = np.empty(time.size)
             yhat_var = np.empty(time.size)
             for i in range(time.size):
-                pred = kfilter.Predict(time[i])
+                pred = kfilter.Predict(float(time[i]))
                 yhat[i] = pred.first
                 yhat_var[i] = pred.second
 
@@ -823,13 +820,7 @@ class CarmaSample(samplers.MCMCSample):
         # note that KalmanFilter class assumes the time series has zero mean
         kfilter, mu = self.makeKalmanFilter(bestfit)
         kfilter.Filter()
-        vtime = carmcmcLib.vecD()
-        if np.isscalar(time):
-            vtime.append(time)
-        else:
-            vtime.extend(time)
-
-        ysim = np.asarray(kfilter.Simulate(vtime))
+        ysim = np.asarray(kfilter.Simulate(arrayToVec(np.atleast_1d(time))))
         ysim += mu  # add mean back into time series
 
         return ysim
@@ -857,7 +848,8 @@ def arrayToVec(array, arrType=carmcmcLib.vecD):
     Convert the input numpy array to a python wrapper of a C++ std::vector<double> object.
     """
     vec = arrType()
-    vec.extend(array)
+    # the C++ wrappers only take double precision values, so convert integer or single precision arrays
+    vec.extend(np.asarray(array, dtype=complex if arrType is carmcmcLib.vecC else float))
     return vec
 
 
-- 
2.43.0


From 4d64229e2d67a29864c1245f6c033ad89b3dfd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:39 +0000
Subject: [PATCH 28/36] fix: draw starting values from the package's random
 number generator

The starting values of the autoregressive and moving-average parameters
came from Armadillo's own generator, so setting or recovering the seed of
RandomGenerator did not reproduce a run.
---
 src/carpack.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 4ef3d63..6e8cd80 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -274,7 +274,9 @@ arma::vec CARp::StartingAR() {
     // Obtain initial values for Lorentzian centroids (= system frequencies) and
     // widths (= break frequencies)
     arma::vec lorentz_cent((p_+1)/2);
-    lorentz_cent.randu();
+    for (unsigned int i=0; i<lorentz_cent.n_elem; i++) {
+        lorentz_cent(i) = RandGen.uniform();
+    }
     lorentz_cent = log(max_freq_ / min_freq) * lorentz_cent + log(min_freq);
     lorentz_cent = arma::exp(lorentz_cent);
     
@@ -282,7 +284,9 @@ arma::vec CARp::StartingAR() {
     lorentz_cent = arma::sort(lorentz_cent, "descend");
     
     arma::vec lorentz_width((p_+1)/2);
-    lorentz_width.randu();
+    for (unsigned int i=0; i<lorentz_width.n_elem; i++) {
+        lorentz_width(i) = RandGen.uniform();
+    }
     lorentz_width = log(max_freq_ / min_freq) * lorentz_width + log(min_freq);
     lorentz_width = arma::exp(lorentz_width);
     
@@ -517,7 +521,9 @@ arma::vec CARMA::SetStartingValue(arma::vec init)
 // get initial guess for the moving average polynomial coefficients
 arma::vec CARMA::StartingMA() {
     arma::vec ma_quad(q_);
-    ma_quad.randn();
+    for (unsigned int i=0; i<ma_quad.n_elem; i++) {
+        ma_quad(i) = RandGen.normal();
+    }
     return arma::abs(ma_quad);
 }
 
-- 
2.43.0


From 7e5ad7092990e247784d855ae4a2d293b7a071c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:39 +0000
Subject: [PATCH 29/36] fix: give parallel maximum-likelihood trials
 independent random starts

The worker processes inherit the state of the random number generators, so
with njobs > 1 all of them repeated the same trials.
---
 src/boost_python_wrapper.cpp |  9 +++++++++
 src/carmcmc/carma_pack.py    | 13 ++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/boost_python_wrapper.cpp b/src/boost_python_wrapper.cpp
index 70a1e04..f07d334 100644
--- a/src/boost_python_wrapper.cpp
+++ b/src/boost_python_wrapper.cpp
@@ -22,6 +22,12 @@
 
 using namespace boost::python;
 
+// Set the seed of the random number generator, needed for giving worker processes independent random numbers.
+void SetRandomSeed(unsigned long seed)
+{
+    RandGen.SetSeed(seed);
+}
+
 BOOST_PYTHON_FUNCTION_OVERLOADS(car1Overloads, RunCar1Sampler, 5, 7);
 BOOST_PYTHON_FUNCTION_OVERLOADS(carmaOverloads, RunCarmaSampler, 8, 11);
 
@@ -76,6 +82,9 @@ BOOST_PYTHON_MODULE(_carmcmc){
     def("run_mcmc_car1", RunCar1Sampler, car1Overloads());
     def("run_mcmc_carma", RunCarmaSampler, carmaOverloads());
 
+    // random.hpp
+    def("set_random_seed", SetRandomSeed);
+
     // kfilter.hpp
     class_<KalmanFilter<double>, boost::noncopyable>("KalmanFilter_double", no_init);
     class_<KalmanFilter<arma::cx_vec>, boost::noncopyable>("KalmanFilter_arma", no_init);
diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index c9cc386..af31696 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -112,7 +112,9 @@ class CarmaModel(object):
             pool = multiprocessing.Pool(njobs)
             # warm up the pool
             pool.map(int, range(multiprocessing.cpu_count()))
-            MLEs = pool.map(_get_mle_single, args)
+            # the workers inherit the state of the random number generators, so give each trial its own seed
+            seeds = np.random.randint(2 ** 31 - 1, size=ntrials)
+            MLEs = pool.map(_get_mle_seeded, zip(seeds, args))
             pool.terminate()
 
         best_MLE = MLEs[0]
@@ -189,6 +191,15 @@ class CarmaModel(object):
         return best_MLE, pqlist, AICc
 
 
+def _get_mle_seeded(args):
+
+    seed, mle_args = args
+    np.random.seed(seed)
+    carmcmcLib.set_random_seed(int(seed))
+
+    return _get_mle_single(mle_args)
+
+
 def _get_mle_single(args):
 
     p, q, time, y, ysig = args
-- 
2.43.0


From 4d4b55bc31c757c5daa60fd8887b04fd1f7c4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:57 +0000
Subject: [PATCH 30/36] fix: never select an order with more parameters than
 the data can support

For n <= k + 1 data points the AICc correction term divided by zero or
turned negative, so that the most complex model won.
---
 src/carmcmc/carma_pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index af31696..1b17915 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -176,7 +176,11 @@ class CarmaModel(object):
         for MLE, pq in zip(MLEs, pqlist):
             nparams = 2 + pq[0] + pq[1]
             deviance = 2.0 * MLE.fun
-            this_AICc = 2.0 * nparams + deviance + 2.0 * nparams * (nparams + 1.0) / (self.time.size - nparams - 1.0)
+            dof = self.time.size - nparams - 1.0
+            if dof > 0:
+                this_AICc = 2.0 * nparams + deviance + 2.0 * nparams * (nparams + 1.0) / dof
+            else:
+                this_AICc = np.inf  # too few data points for this many parameters
             print(pq[0], pq[1], this_AICc)
             AICc.append(this_AICc)
             if this_AICc < best_AICc:
-- 
2.43.0


From 68d22cac872e442a47e803e71cb419c0ec5f6701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:02 +0000
Subject: [PATCH 31/36] fix: generate paths at repeated times, and CAR(1) paths
 at unsorted times

Both gave NaN: rounding made the variance at a repeated time negative, and
car1_process needed increasing times.
---
 src/carmcmc/carma_pack.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 1b17915..755190d 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1144,6 +1144,9 @@ def car1_process(time, sigsqr, tau):
     :rtype : A numpy array containing the simulated CAR(1) process values at time.
     """
 
+    # the process is generated at the distinct times in increasing order
+    time, time_index = np.unique(time, return_inverse=True)
+
     marginal_var = sigsqr * tau / 2.0
     y = np.zeros(len(time))
     y[0] = np.sqrt(marginal_var) * np.random.standard_normal()
@@ -1154,7 +1157,7 @@ def car1_process(time, sigsqr, tau):
         conditional_var = marginal_var * (1.0 - rho ** 2)
         y[i] = rho * y[i-1] + np.sqrt(conditional_var) * np.random.standard_normal()
 
-    return y
+    return y[time_index]
 
 def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     """
@@ -1173,16 +1176,13 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
 
     p = len(ar_roots)
 
-    # the process is generated in order of increasing time
-    time_order = np.argsort(time, kind='stable')
-    time = np.asarray(time)[time_order]
-    y = np.empty(time.size)
-    path = np.empty(time.size)  # the generated values in the order of the input times
-
     if p == 1:
         # generate a CAR(1) process
-        path[time_order] = car1_process(time, sigsqr, -1.0 / np.real(ar_roots[0]))
-        return path
+        return car1_process(time, sigsqr, -1.0 / np.real(ar_roots[0]))
+
+    # the process is generated at the distinct times in increasing order
+    time, time_index = np.unique(time, return_inverse=True)
+    y = np.empty(time.size)
 
     # add extra zeros to end of ma_coefs
     ma_coefs = np.append(ma_coefs, np.zeros(p - len(ma_coefs)))
@@ -1266,8 +1266,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
         # finally, update the innovation
         innovation = y[i] - kalman_mean
 
-    path[time_order] = y
-    return path
+    return y[time_index]
 
 ##################
 # Deprecated
-- 
2.43.0


From fa0db63f3912f7c53309e5d1bc3bcb030e972fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:15 +0000
Subject: [PATCH 32/36] fix: autocorrelation times of scalar and matrix-valued
 samples

posterior_summaries failed for samples stored as a one-dimensional array.
---
 src/carmcmc/samplers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carmcmc/samplers.py b/src/carmcmc/samplers.py
index c2f0403..344bed4 100644
--- a/src/carmcmc/samplers.py
+++ b/src/carmcmc/samplers.py
@@ -78,6 +78,7 @@ class MCMCSample(object):
         :param trace: The parameter trace, a numpy array.
         """
         acors = []
+        trace = trace.reshape(trace.shape[0], -1)  # one column per element, also for scalar or matrix parameters
         for i in range(trace.shape[1]):
             tau, mean, sigma = acor.acor(trace[:, i].real)  # Warning, does not work with numpy.complex
             acors.append(tau)
-- 
2.43.0


From f72530451b72cc245073dc66a401c98bbe917580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:38 +0000
Subject: [PATCH 33/36] fix: draw the points outside the contours in plot_2dkde
 with current matplotlib

ContourSet.collections no longer exists, so plot_2dkde raised an
AttributeError unless doPlotStragglers was turned off. Use the contour
segments instead, which every matplotlib version provides.
---
 src/carmcmc/samplers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/carmcmc/samplers.py b/src/carmcmc/samplers.py
index 344bed4..5df3e67 100644
--- a/src/carmcmc/samplers.py
+++ b/src/carmcmc/samplers.py
@@ -6,6 +6,8 @@ __author__ = 'Brandon C. Kelly'
 
 import numpy as np
 from matplotlib import pyplot as plt
+from matplotlib.path import Path
+import scipy.optimize
 import scipy.stats
 import acor
 
@@ -258,12 +260,12 @@ class MCMCSample(object):
         plt.setp(axY.get_xticklabels()+axY.get_yticklabels(), visible=False)
 
         # Note to self: you need to set up the contours above to have
-        # the outer one first, for collections[0] to work below.
+        # the outer one first, for allsegs[0] to work below.
         # 
         # Also a note: this does not work if the outer contour is not
         # fully connected.
         if doPlotStragglers:
-            outer = cont.collections[0]._paths
+            outer = [Path(segment) for segment in cont.allsegs[0]]
             sx = []
             sy = []
             for i in range(npts):
-- 
2.43.0


From 5e9b8dd6681d977ce286d1d7fbbdd45d196dec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:38 +0000
Subject: [PATCH 34/36] fix: integer input and order of simulated values in
 KalmanFilterDeprecated

With integer times or measurements the filter output and the inserted
simulated points were truncated to integers. simulate() also sorted the
caller's array in place; it now visits the times in order and leaves the
array alone, so values are aligned with the requested times.
---
 src/carmcmc/carma_pack.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 755190d..8d1bee4 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1287,9 +1287,9 @@ class KalmanFilterDeprecated(object):
         except ValueError:
             "Order of MA polynomial cannot be larger than order of AR polynomial."
 
-        self.time = time
-        self.y = y
-        self.yvar = yvar
+        self.time = np.array(time, dtype=float)
+        self.y = np.array(y, dtype=float)
+        self.yvar = np.array(yvar, dtype=float)
         self.sigsqr = sigsqr
         self.ar_roots = ar_roots
         self.p = ar_roots.size  # order of the CARMA(p,q) process
@@ -1518,8 +1518,7 @@ class KalmanFilterDeprecated(object):
             y0 = self.y
             yvar0 = self.yvar
             ysimulated = np.empty(time_simulate.size)
-            time_simulate.sort()
-            for i in range(time_simulate.size):
+            for i in np.argsort(time_simulate):
                 cmean, cvar = self.predict(time_simulate[i])
                 ysimulated[i] = np.random.normal(cmean, np.sqrt(cvar))  # simulate the time series value
                 # find the index where time[isimulate-1] < time_simulate < time[isimulate]
-- 
2.43.0


From 62f5b5a0fa8dc232bcf8f2ec42e5da2c90f7d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:32 +0000
Subject: [PATCH 35/36] fix: CARp::Variance is even in the lag

The autocovariance grew exponentially for negative lags.
---
 src/carpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 6e8cd80..4d9f5d8 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -406,7 +406,7 @@ double CARp::Variance(arma::cx_vec alpha_roots, arma::vec ma_coefs, double sigma
             ma_sum1 += ma_coefs(l) * std::pow(alpha_roots(k),l);
             ma_sum2 += ma_coefs(l) * std::pow(-alpha_roots(k),l);
         }
-        numer = ma_sum1 * ma_sum2 * std::exp(alpha_roots(k) * dt);
+        numer = ma_sum1 * ma_sum2 * std::exp(alpha_roots(k) * std::abs(dt));
         
         car_var += numer / denom;
 	}
-- 
2.43.0


From b845920f57228c4fb0f68d601105c1edc4ebb3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:26 +0000
Subject: [PATCH 36/36] fix: SetTime of the Kalman filters left the time steps
 of the earlier series in use

---
 src/include/kfilter.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 0ae18f7..5fd9d5b 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -78,6 +78,10 @@ public:
     // Methods to set and get the data
     void SetTime(arma::vec& time) {
         time_ = time;
+        // the quantities derived from the times must follow them
+        dt_ = time_(arma::span(1,time_.n_elem-1)) - time_(arma::span(0,time_.n_elem-2));
+        mean.zeros(time_.n_elem);
+        var.zeros(time_.n_elem);
     }
     arma::vec GetTime() {
         return time_;
-- 
2.43.0

