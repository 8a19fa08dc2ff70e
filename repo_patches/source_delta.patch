From bea43c7a13e399ed2eca06d71caa7825e26ae6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 01/24] fix: a rejected StockData update leaves the stock
 unchanged

---
 src/market_data/stock_data.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index a7775de..0976019 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -38,18 +38,24 @@ namespace OptionPricer {
     }
 
     void StockData::setPrice(const double& S) {
-        S_ = S;
-        validate();
+        StockData updated(*this);
+        updated.S_ = S;
+        updated.validate();
+        S_ = S; // Only once the new state is known to be valid
     }
 
     void StockData::setSigma(const double& sigma) {
+        StockData updated(*this);
+        updated.sigma_ = sigma;
+        updated.validate();
         sigma_ = sigma;
-        validate();
     }
 
     void StockData::setCoupon(const std::optional<double>& c) {
+        StockData updated(*this);
+        updated.c_ = c;
+        updated.validate();
         c_ = c;
-        validate();
     }
 
     void StockData::validate() const {
-- 
2.43.0


From f0cdda19c4eb07d7d1da39d7e1e3052190dd96b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 02/24] fix: StockData rejects NaN price, volatility and coupon

---
 src/market_data/stock_data.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index 0976019..90400d4 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -59,14 +59,14 @@ namespace OptionPricer {
     }
 
     void StockData::validate() const {
-        if (S_ <= 0) {
+        if (!(S_ > 0)) {
             throw std::invalid_argument("Price must be positive.");
         }
-        if (sigma_ < 0) {
+        if (!(sigma_ >= 0)) {
             throw std::invalid_argument("Sigma cannot be negative.");
         }
         // Check if the optional dividend was specified before accessing
-        if (c_.has_value() && (c_.value() < 0 || c_.value() > 1)) {
+        if (c_.has_value() && !(c_.value() >= 0 && c_.value() <= 1)) {
             throw std::invalid_argument("Coupon rate must be between 0 and 1.");
         }
     }
-- 
2.43.0


From 1cc96ff709051c225c1df6923ebfd42cc76777ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 03/24] fix: payoffs reject NaN strikes

---
 src/payoff/double_strikes/base_payoff_double_strikes.cpp | 4 ++--
 src/payoff/single_strike/base_payoff_single_strike.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/payoff/double_strikes/base_payoff_double_strikes.cpp b/src/payoff/double_strikes/base_payoff_double_strikes.cpp
index 45f4f2a..0ae0b9f 100644
--- a/src/payoff/double_strikes/base_payoff_double_strikes.cpp
+++ b/src/payoff/double_strikes/base_payoff_double_strikes.cpp
@@ -6,8 +6,8 @@ namespace OptionPricer {
 
     PayoffDoubleStrikes::PayoffDoubleStrikes(const PayoffType& type, const double& K_L, const double& K_U)
         : Payoff(type), K_L_(K_L), K_U_(K_U) {
-        if (K_L_ < 0) throw std::invalid_argument("Lower Strike price (K_L) must be positive.");
-        if (K_U_ < 0) throw std::invalid_argument("Upper Strike price (K_U) must be positive.");
+        if (!(K_L_ >= 0)) throw std::invalid_argument("Lower Strike price (K_L) must be positive.");
+        if (!(K_U_ >= 0)) throw std::invalid_argument("Upper Strike price (K_U) must be positive.");
     }
 
     PayoffDoubleStrikes::~PayoffDoubleStrikes() = default;
diff --git a/src/payoff/single_strike/base_payoff_single_strike.cpp b/src/payoff/single_strike/base_payoff_single_strike.cpp
index 0132f37..9433855 100644
--- a/src/payoff/single_strike/base_payoff_single_strike.cpp
+++ b/src/payoff/single_strike/base_payoff_single_strike.cpp
@@ -5,7 +5,7 @@
 namespace OptionPricer {
 
     PayoffSingleStrike::PayoffSingleStrike(const PayoffType& type, const double& K) : Payoff(type), K_(K) {
-        if (K_ < 0) throw std::invalid_argument("Strike price (K) must be positive.");
+        if (!(K_ >= 0)) throw std::invalid_argument("Strike price (K) must be positive.");
     }
 
     PayoffSingleStrike::~PayoffSingleStrike() = default;
-- 
2.43.0


From a98abb4cab5fba34b02db87040b19595b4aed91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 04/24] fix: options reject a NaN maturity

---
 src/option/base_option.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 8be0461..6c9d7af 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -22,7 +22,7 @@ namespace OptionPricer {
                    const double& T,
                    std::shared_ptr<IMarketData> marketData)
     : MarketDataObserver(ticker), T_(T), marketData_(std::move(marketData)) {
-        if (T < 0) throw std::invalid_argument("Time to expiration (T) must be positive.");
+        if (!(T >= 0)) throw std::invalid_argument("Time to expiration (T) must be positive.");
         // Try to retrieve StockData if not found it throws an exception
         auto stockData = marketData_->getStockData(id_);
         payoff_ = std::move(payoff); // Safely move the payoff
-- 
2.43.0


From a23824ffe7beacb15224b2bdc21807bb220a2aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 05/24] fix: HestonModel uses the variance discretization it is
 given

---
 src/model/heston_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 4f1e276..6ec13df 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -27,7 +27,7 @@ namespace OptionPricer {
         */
 
         // Apply default discretization if nullptr is passed
-        if (!varDiscretization) {
+        if (!varDiscretization_) {
             varDiscretization_ = std::make_shared<CIRExplicitEulerDiscretization>();
         }
     }
-- 
2.43.0


From 6be340c98bb6140609bf8720b4e14c96ac0c7d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 06/24] fix: Crank-Nicolson explicit part includes the boundary
 nodes

---
 .../solver/one_factor/crank_nicolson_fdm_solver.cpp       | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index d2ffaa4..0e7ce0a 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -82,13 +82,7 @@ namespace OptionPricer::FDM::OneFactor {
             gamma = -0.5 * (dtSig + dtSig2);  // RHS (explicit) upper diagonal
 
             // Add the explicit part
-            b[j-1] += beta * oldPrices[j];
-            if (j > 1) {
-                b[j-1] += alpha * oldPrices[j-1];
-            }
-            if (j < J_-2) {
-                b[j-1] += gamma * oldPrices[j+1];
-            }
+            b[j-1] += alpha * oldPrices[j-1] + beta * oldPrices[j] + gamma * oldPrices[j+1];
 
             // Convert triplets to sparse matrices
             A.setFromTriplets(tripletListA.begin(), tripletListA.end());
-- 
2.43.0


From 617ce8a322dbc1068907f212a2ec9fec2b2a5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 07/24] fix: Crank-Nicolson solves the assembled system only,
 once per time step

---
 .../one_factor/crank_nicolson_fdm_solver.cpp     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index 0e7ce0a..2b9f305 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -83,17 +83,17 @@ namespace OptionPricer::FDM::OneFactor {
 
             // Add the explicit part
             b[j-1] += alpha * oldPrices[j-1] + beta * oldPrices[j] + gamma * oldPrices[j+1];
+        }
 
-            // Convert triplets to sparse matrices
-            A.setFromTriplets(tripletListA.begin(), tripletListA.end());
+        // Convert triplets to sparse matrices
+        A.setFromTriplets(tripletListA.begin(), tripletListA.end());
 
-            // Solve for the matrix system A * newPrices = b
-            Eigen::VectorXd solution = matrixSolver_->solve(A, b);
+        // Solve for the matrix system A * newPrices = b
+        Eigen::VectorXd solution = matrixSolver_->solve(A, b);
 
-            // Copy the solution to the internal prices
-            for (unsigned long j = 1; j < (J_-1); ++j) {
-                newPrices[j] = solution[j-1];
-            }
+        // Copy the solution to the internal prices
+        for (unsigned long j = 1; j < (J_-1); ++j) {
+            newPrices[j] = solution[j-1];
         }
     }
 
-- 
2.43.0


From 608284c05c31b98d80fe1b885a1d5f31865bcb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 08/24] fix: Black-Scholes boundary values are discounted over
 the time to maturity

---
 .../pde/one_factor/black_scholes_pde.cpp                  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
index 8f29f66..522e3b7 100644
--- a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
+++ b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
@@ -38,7 +38,9 @@ namespace OptionPricer::PDE::OneFactor {
             return 0.0;
         }
 
-        return payoff->getK();
+        // t is the time to maturity
+        const double r = marketData_->getR();
+        return payoff->getK() * std::exp(-r * t);
     }
 
     double BlackScholesPDE::boundaryRight(const double &t, const double &x) const {
@@ -50,8 +52,8 @@ namespace OptionPricer::PDE::OneFactor {
         if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
             const double K = payoff->getK();
             const double r = marketData_->getR();
-            const double T = option_->getT();
-            return x - K * std::exp(-r * (T - t));
+            const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);
+            return x * std::exp(-c * t) - K * std::exp(-r * t);
         }
 
         return 0.0;
-- 
2.43.0


From a2491fbaa1d8f016a48fd2c5363b1f4b5354920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 09/24] fix: explicit Euler boundary nodes are taken at the new
 time level

---
 .../solver/one_factor/euler_explicit_fdm_solver.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
index f2a87f5..0fa73f3 100644
--- a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
@@ -13,8 +13,8 @@ namespace OptionPricer::FDM::OneFactor {
     EulerExplicitFDM::~EulerExplicitFDM() = default;
 
     void EulerExplicitFDM::calculateBoundaryConditions() {
-        newPrices.front() = pde_->boundaryLeft(tPrev, xValues.front());
-        newPrices.back() = pde_->boundaryRight(tPrev, xValues.back());
+        newPrices.front() = pde_->boundaryLeft(tCurr, xValues.front());
+        newPrices.back() = pde_->boundaryRight(tCurr, xValues.back());
     }
 
     void EulerExplicitFDM::calculateInnerDomain() {
-- 
2.43.0


From 0c18d557279e9d64f98fab04a3af7ee28e8d8ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 10/24] fix: FDMSolver marches exactly N-1 time steps

---
 .../solver/one_factor/base_fdm_solver.cpp                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 99b40c9..a3f82fe 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -46,7 +46,8 @@ namespace OptionPricer::FDM::OneFactor {
     }
 
     std::vector<double> FDMSolver::solve() {
-        while(tCurr < tDom_) {
+        if (solved) return newPrices;
+        for (unsigned long n = 1; n < N_; ++n) {
             tCurr = tPrev + dt;
             calculateBoundaryConditions();
             calculateInnerDomain(); // To be overiden in concrete classes
-- 
2.43.0


From 1f173eb7d3531a0eb7c5d15b0c2693a337245d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 11/24] fix: a Kou jump is either up or down

---
 src/model/kou_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index f936c74..e127218 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -59,9 +59,10 @@ namespace OptionPricer {
                 if (U < p_) {
                     const double upsideJump = (*generator_)(exponentialDistUp);
                     jumpSize += upsideJump;
+                } else {
+                    const double downsideJump = -(*generator_)(exponentialDistDown);
+                    jumpSize += downsideJump;
                 }
-                const double downsideJump = -(*generator_)(exponentialDistDown);
-                jumpSize += downsideJump;
             }
 
             // Update stock price
-- 
2.43.0


From 04f437aa29e6f37e7d720c07f7b04c47a54c8031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 12/24] fix: Kou model rejects jump rates without a finite mean
 jump

---
 src/model/kou_model.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index e127218..06697e3 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -15,9 +15,9 @@ namespace OptionPricer {
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
         if (p_ < 0 || p_ > 1)
             throw std::invalid_argument("p must be between [0,1].");
-        if (eta1_ < 1)
+        if (eta1_ <= 1)
             throw std::invalid_argument("eta1 must be between larger than 1.");
-        if (eta2_ < 0)
+        if (eta2_ <= 0)
             throw std::invalid_argument("eta2 must be between larger than 0.");
         muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta2_+1));
     }
-- 
2.43.0


From 458b1675815dc209de3cb403e6bf1520a87d54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 13/24] fix: Merton and Bates drifts are compensated for the
 jumps

---
 src/model/bates_model.cpp                 | 3 ++-
 src/model/merton_jump_diffusion_model.cpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 6c41cfd..630e6ea 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -55,7 +55,8 @@ namespace OptionPricer {
 
             // Update stock price S(t+1) using variance v(t)
             const double VMax = std::max(V, 0.0);
-            const double drift = (r - c - 0.5 * VMax) * dt;
+            const double kappaJ = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1; // Mean relative jump
+            const double drift = (r - c - 0.5 * VMax - lambda_ * kappaJ) * dt;
             const double diffusion = sqrt(VMax * dt) * zS;
             S *= exp(drift + diffusion);
 
diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 2007e55..7b11c0d 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -37,8 +37,9 @@ namespace OptionPricer {
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-            // Drift Part
-            const double drift = (r - c - 0.5 * sigma*sigma) * dt;
+            // Drift Part with risk neutral adjustment for the jumps
+            const double kappaJ = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1;
+            const double drift = (r - c - 0.5 * sigma*sigma - lambda_ * kappaJ) * dt;
 
             // Diffusion part: Standard Brownian Motion
             const double z = (*generator_)(snDist);
-- 
2.43.0


From e795a9467b10f85bd83dfd5e46725960319b5d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 14/24] fix: the Variance Gamma subordinator has mean dt

---
 src/model/variance_gamma_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index a386bd3..7c6afa3 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -37,7 +37,7 @@ namespace OptionPricer {
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snDist;
-        GammaDistribution gammaDist(dt / nu_, nu_);
+        GammaDistribution gammaDist(dt / nu_, 1.0 / nu_); // Mean dt and variance nu*dt
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-- 
2.43.0


From e4117c01ec48b2f80c0d8bb9909bd39124ad3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 15/24] fix: Variance Gamma martingale correction follows the
 current volatility

---
 include/model/variance_gamma_model.h | 1 -
 src/model/variance_gamma_model.cpp   | 9 ++++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/model/variance_gamma_model.h b/include/model/variance_gamma_model.h
index 5c50ce6..9db0593 100644
--- a/include/model/variance_gamma_model.h
+++ b/include/model/variance_gamma_model.h
@@ -20,7 +20,6 @@ namespace OptionPricer {
     private:
         double nu_;    // Variance rate of the Gamma process
         double theta_; // Drift of the Brownian motion
-        double omega_; // Drift correction term
     };
 
 }
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index 7c6afa3..e1e9be8 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -16,10 +16,6 @@ namespace OptionPricer {
         if (nu_ <= 0.0) {
             throw std::invalid_argument("nu must be positive");
         }
-
-        // Calculate the omega correction term that makes the actualized stock price a martingale
-        const double sigma = stockData_->getSigma();
-        omega_ = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
     }
 
     VarianceGammaModel::~VarianceGammaModel() = default;
@@ -36,6 +32,9 @@ namespace OptionPricer {
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
 
+        // Omega correction term that makes the actualized stock price a martingale
+        const double omega = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
+
         StandardNormalDistribution snDist;
         GammaDistribution gammaDist(dt / nu_, 1.0 / nu_); // Mean dt and variance nu*dt
 
@@ -44,7 +43,7 @@ namespace OptionPricer {
             const double g = (*generator_)(gammaDist); // Gamma subordinator
             const double z = (*generator_)(snDist);  // Normal distributed increment
 
-            const double drift = (r - c + omega_) * dt;
+            const double drift = (r - c + omega) * dt;
             const double VG = theta_ * g + sigma * std::sqrt(g) * z;
 
             S *= std::exp(drift + VG);
-- 
2.43.0


From 71d91c0e473699b7e6dc0f0049333007be657061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 16/24] fix: ContinuousUniformDistribution samples its own
 interval

---
 src/random/distribution/continuous_uniform_distrib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index ebe5c43..0558a0a 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -2,7 +2,7 @@
 
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
-    : a_(a), b_(b) {
+    : a_(a), b_(b), uniform_dist_(a_, b_) {
         if (a_ >= b_)
             throw std::invalid_argument("a must lower than b");
     }
-- 
2.43.0


From cdd17d8848bb20e66993d65252583c90e3cdaab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 17/24] fix: the pseudo random generator uses its seed

---
 include/random/number_generator/pseudo_random_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/random/number_generator/pseudo_random_generator.h b/include/random/number_generator/pseudo_random_generator.h
index 3ffc680..08d4844 100644
--- a/include/random/number_generator/pseudo_random_generator.h
+++ b/include/random/number_generator/pseudo_random_generator.h
@@ -13,7 +13,7 @@ namespace OptionPricer {
         double operator()(Distribution& dist) const override;
 
     private:
-        mutable std::mt19937 generator_; // Mersenne Twister PRNG
+        mutable std::mt19937 generator_{seed_}; // Mersenne Twister PRNG
     };
 
 }
-- 
2.43.0


From d1b75608ce7abf192b9d6a4eda6a0e1ecfd7dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 18/24] fix: number generators reject dimension 0

---
 src/random/number_generator/base_generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random/number_generator/base_generator.cpp b/src/random/number_generator/base_generator.cpp
index 163f81b..6068834 100644
--- a/src/random/number_generator/base_generator.cpp
+++ b/src/random/number_generator/base_generator.cpp
@@ -4,12 +4,14 @@ namespace OptionPricer {
 
     NumberGenerator::NumberGenerator(const unsigned int &dim)
     : dim_(dim) {
+        validateDim();
         std::random_device rd;
         seed_ = rd();
     }
 
     NumberGenerator::NumberGenerator(const unsigned int &dim, const unsigned int& seed)
     : dim_(dim), seed_(seed) {
+        validateDim();
         if (seed_ < 0) {
             throw std::invalid_argument("seed parameter must be a positive integer");
         }
@@ -22,7 +24,7 @@ namespace OptionPricer {
     }
 
     void NumberGenerator::validateDim() const {
-        if (dim_ < 0) {
+        if (dim_ == 0) {
             throw std::invalid_argument("dim must be a positive integer");
         }
     }
-- 
2.43.0


From 11f7afb2a4362b312ebbe5d8e54e016cffba1c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:42 +0000
Subject: [PATCH 19/24] fix: American Monte Carlo discounts steps without
 in-the-money paths

---
 src/solver/monte_carlo/mc_american.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index ca479d4..ac891e0 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -87,6 +87,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor; // No path to exercise: roll all of them back one step
             }
         }
 
@@ -163,6 +165,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor; // No path to exercise: roll all of them back one step
             }
         }
 
-- 
2.43.0


From 0384fda97209b77598d1ca462dfb7158bfb897fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:42 +0000
Subject: [PATCH 20/24] fix: the first Laguerre polynomial is 1 - x

---
 src/numerical_analysis/basis_function/laguerre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerical_analysis/basis_function/laguerre.cpp b/src/numerical_analysis/basis_function/laguerre.cpp
index 4ae3af8..92411df 100644
--- a/src/numerical_analysis/basis_function/laguerre.cpp
+++ b/src/numerical_analysis/basis_function/laguerre.cpp
@@ -9,7 +9,7 @@ namespace OptionPricer {
         basis.col(0).setOnes(); // P0(x) = 1
 
         if (numberBasis_ > 1)
-            basis.col(1) = x; // P1(x) = x
+            basis.col(1) = 1.0 - x.array(); // P1(x) = 1 - x
 
         for (int n = 2; n < numberBasis_; ++n) {
             basis.col(n) = ((2 * (n-1) + 1 - x.array()) * basis.col(n-1).array()
-- 
2.43.0


From 85961bdf77acc5486515284edb6f4fa71400aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:42 +0000
Subject: [PATCH 21/24] fix: observers may be added or removed while being
 notified

---
 src/market_data/market_data.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/market_data/market_data.cpp b/src/market_data/market_data.cpp
index e299158..fc841b0 100644
--- a/src/market_data/market_data.cpp
+++ b/src/market_data/market_data.cpp
@@ -33,7 +33,8 @@ namespace OptionPricer {
     }
 
     void MarketData::notifyObserver(const std::string& id) const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // An update may add or remove observers
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 if (obs->getID() == id) {
                     obs->update();
@@ -44,7 +45,8 @@ namespace OptionPricer {
 
     // Overloaded method that notify all observers
     void MarketData::notifyObservers() const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_;
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 obs->update();
             }
-- 
2.43.0


From 72024422681d5414634ee27a050102feb7f999de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:31 +0000
Subject: [PATCH 22/24] Revert digital boundary values: a EuropeanOption always
 has a vanilla payoff

---
 .../pde/one_factor/black_scholes_pde.cpp                   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
index 522e3b7..225b2d9 100644
--- a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
+++ b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
@@ -1,6 +1,7 @@
 #include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
 
 #include <payoff/single_strike/base_payoff_single_strike.h>
+#include <payoff/single_strike/payoff_digital.h>
 
 namespace OptionPricer::PDE::OneFactor {
     BlackScholesPDE::BlackScholesPDE(std::shared_ptr<EuropeanOption> option, std::shared_ptr<IMarketData> marketData)
@@ -40,6 +41,9 @@ namespace OptionPricer::PDE::OneFactor {
 
         // t is the time to maturity
         const double r = marketData_->getR();
+        if (std::dynamic_pointer_cast<PayoffDigital>(clonedPayoff)) {
+            return std::exp(-r * t); // a digital put pays one unit
+        }
         return payoff->getK() * std::exp(-r * t);
     }
 
@@ -52,6 +56,9 @@ namespace OptionPricer::PDE::OneFactor {
         if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
             const double K = payoff->getK();
             const double r = marketData_->getR();
+            if (std::dynamic_pointer_cast<PayoffDigital>(clonedPayoff)) {
+                return std::exp(-r * t); // a digital call pays one unit
+            }
             const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);
             return x * std::exp(-c * t) - K * std::exp(-r * t);
         }
-- 
2.43.0


From 4168f599c228ac1e477b01c0e21c21b9dbf3a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:02 +0000
Subject: [PATCH 23/24] Revert digital boundary values: a EuropeanOption always
 has a vanilla payoff

---
 .../pde/one_factor/black_scholes_pde.cpp                   | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
index 225b2d9..522e3b7 100644
--- a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
+++ b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
@@ -1,7 +1,6 @@
 #include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
 
 #include <payoff/single_strike/base_payoff_single_strike.h>
-#include <payoff/single_strike/payoff_digital.h>
 
 namespace OptionPricer::PDE::OneFactor {
     BlackScholesPDE::BlackScholesPDE(std::shared_ptr<EuropeanOption> option, std::shared_ptr<IMarketData> marketData)
@@ -41,9 +40,6 @@ namespace OptionPricer::PDE::OneFactor {
 
         // t is the time to maturity
         const double r = marketData_->getR();
-        if (std::dynamic_pointer_cast<PayoffDigital>(clonedPayoff)) {
-            return std::exp(-r * t); // a digital put pays one unit
-        }
         return payoff->getK() * std::exp(-r * t);
     }
 
@@ -56,9 +52,6 @@ namespace OptionPricer::PDE::OneFactor {
         if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
             const double K = payoff->getK();
             const double r = marketData_->getR();
-            if (std::dynamic_pointer_cast<PayoffDigital>(clonedPayoff)) {
-                return std::exp(-r * t); // a digital call pays one unit
-            }
             const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);
             return x * std::exp(-c * t) - K * std::exp(-r * t);
         }
-- 
2.43.0


From 5dca7373aa6f3c21d6ef9c18c667eec2f529a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:28 +0000
Subject: [PATCH 24/24] fix: a builder's default model belongs to the option
 and market data of that build

build() stored the default GBM model in the builder, so a later build for
another option (or after setMarketData) priced it on the stock of the first.
---
 .../monte_carlo/builder/mc_builder_american.cpp    |  7 ++++---
 .../monte_carlo/builder/mc_builder_asian.cpp       | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_barrier.cpp     | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_single_path.cpp |  7 ++++---
 .../monte_carlo/builder/mc_lookback_builder.cpp    | 14 ++++++++------
 5 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/solver/monte_carlo/builder/mc_builder_american.cpp b/src/solver/monte_carlo/builder/mc_builder_american.cpp
index c3dd555..6d73984 100644
--- a/src/solver/monte_carlo/builder/mc_builder_american.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_american.cpp
@@ -28,12 +28,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> AmericanMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) { // Default model for this option only
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel_,
+        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,
                                                   basisFunctionStrategy_, regressionStrategy_);
     }
 
diff --git a/src/solver/monte_carlo/builder/mc_builder_asian.cpp b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
index 4087ed6..16e9255 100644
--- a/src/solver/monte_carlo/builder/mc_builder_asian.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
@@ -13,12 +13,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> ArithmeticAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for ArithmeticAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) { // Default model for this option only
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel);
     }
 
     // Geometric Asian
@@ -32,12 +33,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> GeometricAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for GeometricAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) { // Default model for this option only
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
index a0cd91a..289599e 100644
--- a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockInBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockInBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) { // Default model for this option only
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
     // Knock-Out
@@ -33,12 +34,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockOutBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockOutBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) { // Default model for this option only
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
index 7c1cb76..cf045c0 100644
--- a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> MCSinglePathBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) { // Default model for this option only
+            stockModel = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
index f38412b..b03d7c6 100644
--- a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
+++ b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
@@ -15,12 +15,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FloatingStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FloatingStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) { // Default model for this option only
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
     // Fixed Strike
@@ -36,12 +37,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FixedStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FixedStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) { // Default model for this option only
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
 }
\ No newline at end of file
-- 
2.43.0

