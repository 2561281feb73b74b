From 2c8be5df8f2a682100aa753b0b622667565b51be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:14 +0000
Subject: [PATCH 01/43] fix: damping ratio of the spring-mass-damper
 constructor of SecondOrderSystem

The class documents zeta = d / (2 sqrt(m k)); the constructor left out the square root.
---
 .../include/ct/core/systems/continuous_time/SecondOrderSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
index 64e0ec2..64c79fd 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
@@ -113,7 +113,7 @@ public:
         : ControlledSystem<2, 1>(controller),
           w_n_(std::sqrt(k / m)),
           w_n_square_(w_n_ * w_n_),
-          zeta_(d / (2.0 * m * k)),
+          zeta_(d / (2.0 * std::sqrt(m * k))),
           g_dc_(g_dc)
     {
     }
-- 
2.43.0


From 699cb393c547ab523296dc89d5e99cd5684332fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:23 +0000
Subject: [PATCH 02/43] fix: adaptive error tolerances set on a stepper take
 effect

setAdaptiveErrorTolerances() only stored the values; the controlled and the dense output stepper kept the
tolerances they were constructed with.
---
 .../ct/core/integration/internal/StepperBase.h       |  2 +-
 .../ct/core/integration/internal/SteppersODEInt.h    | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/internal/StepperBase.h b/ct_core/include/ct/core/integration/internal/StepperBase.h
index ba57e3c..ccd9400 100644
--- a/ct_core/include/ct/core/integration/internal/StepperBase.h
+++ b/ct_core/include/ct/core/integration/internal/StepperBase.h
@@ -171,7 +171,7 @@ public:
      * @param[in]  absErrTol  The absolute error tolerance
      * @param[in]  relErrTol  The relative error tolerance
      */
-    void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
     {
         absErrTol_ = absErrTol;
         relErrTol_ = relErrTol;
diff --git a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
index 731baa6..10e14b8 100644
--- a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
+++ b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
@@ -118,6 +118,12 @@ public:
         stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
@@ -175,6 +181,12 @@ public:
         stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
-- 
2.43.0


From 5540e33f9cd6f2db0af360f298a6344e0d5e6aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:34 +0000
Subject: [PATCH 03/43] fix: scalar + vector in the Eigen/odeint glue adds
 instead of multiplying

odeint scales the error estimate by eps_abs + eps_rel * (...); with the product in its place the adaptive steppers
worked with the product of both tolerances.
---
 ct_core/include/ct/core/integration/eigenIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/eigenIntegration.h b/ct_core/include/ct/core/integration/eigenIntegration.h
index 6bd13d5..2325892 100644
--- a/ct_core/include/ct/core/integration/eigenIntegration.h
+++ b/ct_core/include/ct/core/integration/eigenIntegration.h
@@ -40,7 +40,7 @@ inline Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtC
     const MatrixBase<D>& m)
 {
     Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtCompileTime, 1> result = m;
-    result *= s;
+    result.array() += s;
     return result;
 }
 
-- 
2.43.0


From 67064beded2e4a5964f3505a899095ba9d1fb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:21 +0000
Subject: [PATCH 04/43] fix: Tustin approximation uses half the step at either
 end

The trapezoidal rule gives A = (I - dt/2 A1)^-1 (I + dt/2 A0); without the factor 1/2 the discrete system advanced by 2 dt.
---
 .../core/integration/sensitivity/SensitivityApproximation.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index 30ae591..123a887 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -150,10 +150,10 @@ public:
 
                 // front derivatives
                 linearSystem_->getDerivatives(Ac_front, Bc_front, x, u, n * settings_.dt_);
-                Ac_front *= settings_.dt_;
+                Ac_front *= SCALAR(0.5) * settings_.dt_;
 
                 state_matrix_t Ac_back =
-                    settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
+                    SCALAR(0.5) * settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
 
 
                 //! tustin approximation
-- 
2.43.0


From 50f92abfb3189a24ff295e1f3ac991eb3b8a2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:21 +0000
Subject: [PATCH 05/43] fix: backward Euler approximation is evaluated at the
 end of the interval

The time was the one at the end of the interval, the state the one at its start.
---
 .../ct/core/integration/sensitivity/SensitivityApproximation.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index 123a887..01b73fb 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -129,7 +129,7 @@ public:
             }
             case SensitivityApproximationSettings::APPROXIMATION::BACKWARD_EULER:
             {
-                backwardEuler(x, u, n + 1, A, B);
+                backwardEuler(x_next, u, n + 1, A, B);
                 break;
             }
             case SensitivityApproximationSettings::APPROXIMATION::SYMPLECTIC_EULER:
-- 
2.43.0


From dc9054580a8eac17c83fddc482e877023e92fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:21 +0000
Subject: [PATCH 06/43] fix: sensitivity integration evaluates the linear
 system at the time of each substep

dt_ is the length of a substep, so stage k starts at k * numSteps * dt_ and every substep advances the time by dt_.
---
 .../ct/core/integration/sensitivity/SensitivityIntegrator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
index d73e7fc..8a39e6c 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
@@ -144,7 +144,7 @@ public:
 
         for (size_t i = 0; i < numSteps; ++i)
         {
-            stepper_->do_step(dFdxDot_, AB, k * dt_, dt_);
+            stepper_->do_step(dFdxDot_, AB, (k * numSteps + i) * dt_, dt_);
         }
 
         A = AB.template leftCols<STATE_DIM>();
@@ -196,8 +196,8 @@ public:
 
         if (!timeVarying_)
         {
-            Aconst_ = linearSystem_->getDerivativeState(x, u, n * dt_);
-            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * dt_);
+            Aconst_ = linearSystem_->getDerivativeState(x, u, n * numSteps * dt_);
+            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * numSteps * dt_);
         }
 
         integrateSensitivity(n, numSteps, A, B);
-- 
2.43.0


From 03b2c5241d23b130d2b3ab7ff6ecde91072dc3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:21 +0000
Subject: [PATCH 07/43] fix: copy constructor of SystemDiscretizer copies the
 system of its argument

It cloned its own, still empty, system pointer and left the constant controller unset.
---
 .../systems/discrete_time/SystemDiscretizer-impl.h     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index 2aae2ae..2aa969a 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -56,9 +56,15 @@ SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::~SystemDiscreti
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
 SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::SystemDiscretizer(const SystemDiscretizer& arg)
-    : dt_(arg.dt_), K_sim_(arg.K_sim_), dt_sim_(arg.dt_sim_), integratorType_(arg.integratorType_)
+    : Base(arg),
+      dt_(arg.dt_),
+      K_sim_(arg.K_sim_),
+      dt_sim_(arg.dt_sim_),
+      integratorType_(arg.integratorType_),
+      cont_constant_controller_(new ConstantController<STATE_DIM, CONTROL_DIM, SCALAR>())
 {
-    changeContinuousTimeSystem(ContinuousSystemPtr(cont_time_system_->clone()));
+    if (arg.cont_time_system_)
+        changeContinuousTimeSystem(arg.cont_time_system_);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
-- 
2.43.0


From c26ad81b0af9adc483a95a5c9c3ab440e656ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:56 +0000
Subject: [PATCH 08/43] fix: evaluate NLOC terminal general constraints at the
 terminal state

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 9ec54b6..1b14587 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -831,6 +831,8 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     // init terminal general constraints, if any
     if (generalConstraints_[settings_.nThreads] != nullptr)
     {
+        generalConstraints_[settings_.nThreads]->setCurrentStateAndControl(
+            x_[K_], control_vector_t::Zero(), settings_.dt * K_);
         p.ng_[K_] = generalConstraints_[settings_.nThreads]->getTerminalConstraintsCount();
         if (p.ng_[K_] > 0)
         {
-- 
2.43.0


From f2cee36229771a8a1e346917452b4007a8695aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:52 +0000
Subject: [PATCH 09/43] fix: never take more steps per shot than the horizon
 has stages

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 1b14587..0d13c03 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1663,7 +1663,7 @@ int NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::g
     if (settings_.isSingleShooting())
         return K_;
     else
-        return settings_.K_shot;
+        return std::min(K_, settings_.K_shot);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-- 
2.43.0


From 3693ec49aaafe7c97e00f0e8f932b4e0b07a1908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 10/43] fix: apply the time activation of an intermediate cost
 term once, as its derivatives do

---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 3b79d02..9c2be86 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -317,7 +317,7 @@ SCALAR CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::evaluateIntermedia
         {
             continue;
         }
-        y += it->computeActivation(this->t_) * it->eval(this->x_, this->u_, this->t_);
+        y += it->eval(this->x_, this->u_, this->t_);
     }
 
     return y;
-- 
2.43.0


From 78f61b819be6b74ff6ae4a20adb5d741080303f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 11/43] fix: CostFunctionQuadraticSimple copies its base and
 honours the time shift

---
 .../optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index d85f5d0..7393241 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -42,7 +42,8 @@ CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::~CostFunctionQuadra
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::CostFunctionQuadraticSimple(
     const CostFunctionQuadraticSimple& arg)
-    : x_deviation_(arg.x_deviation_),
+    : CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>(arg),
+      x_deviation_(arg.x_deviation_),
       x_nominal_(arg.x_nominal_),
       Q_(arg.Q_),
       u_deviation_(arg.u_deviation_),
@@ -68,7 +69,7 @@ void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::setCurrentStat
 {
     this->x_ = x;
     this->u_ = u;
-    this->t_ = t;
+    this->t_ = t + this->t_shift_;
 
     this->x_deviation_ = x - x_nominal_;
     this->u_deviation_ = u - u_nominal_;
-- 
2.43.0


From c6d2cdf37e2d23a80bfb4828e973a7c1d920e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 12/43] fix: sign of the exponent in the constructor of
 RBFGaussActivation

---
 ct_core/include/ct/core/common/activations/RBFGaussActivation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
index b5a6e35..6c0e238 100644
--- a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
+++ b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
@@ -18,7 +18,7 @@ public:
     RBFGaussActivation() {}
     RBFGaussActivation(const SCALAR mu, const SCALAR sigma) : mu_(mu), sigma_(sigma)
     {
-        sigma2inv_ = SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
+        sigma2inv_ = -SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
         factor_ = SCALAR(1.0) / sqrt(SCALAR(2.0) * M_PI * sigma_ * sigma_);
     }
     virtual ~RBFGaussActivation() {}
-- 
2.43.0


From 6058400b43eab2b82bd50c0218c72210336f3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 13/43] fix: bounds loaded into a BarrierActivation are active

---
 .../include/ct/core/common/activations/BarrierActivation.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
index ddd2e60..8c05150 100644
--- a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
@@ -58,6 +58,7 @@ public:
         {
             // if there is no or a wrongly specified upper bound
             ub_ = pt.get<SCALAR>(termName + ".upper_bound");
+            ub_active_ = true;
         } catch (std::exception& e)
         {
             // we set the upper bound inactive
@@ -69,6 +70,7 @@ public:
         {
             // if there is no or a wrongly specified lower bound
             lb_ = pt.get<SCALAR>(termName + ".lower_bound");
+            lb_active_ = true;
         } catch (std::exception& e)
         {
             // we set the lower bound inactive
-- 
2.43.0


From 132ce1b1add0c67902467e38745b08d9e61a6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 14/43] fix: end time of a PeriodicActivation constructed
 without one

---
 .../include/ct/core/common/activations/PeriodicActivation.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
index 1157cce..d9345f3 100644
--- a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
@@ -22,7 +22,8 @@ public:
         : active_percentage_(active_percentage),
           period_(period),
           activation_offset_(activation_offset),
-          period_offset_(period_offset)
+          period_offset_(period_offset),
+          t_end_(std::numeric_limits<double>::max())
     {
     }
     virtual ~PeriodicActivation() {}
-- 
2.43.0


From 8b2352d6495d2857dd94c097d1e15431e50d3d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 15/43] fix: initialize the members of a default constructed
 TermLinear

---
 .../include/ct/optcon/costfunction/term/TermLinear-impl.hpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
index dfd971d..58bca5a 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
@@ -30,8 +30,10 @@ TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::clone() const
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
-TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermLinear()
+TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermLinear() : c_(SCALAR_EVAL(0.0))
 {
+    a_.setZero();
+    b_.setZero();
 }
 
 
-- 
2.43.0


From 9cdd671be484209fdf1149020d800aae24071c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 16/43] fix: check that a time activation of the given kind
 exists before loading it

---
 ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
index aa9f83b..da98679 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
@@ -160,13 +160,13 @@ void TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadTimeActivation(c
         boost::algorithm::to_lower(activationKind);
         std::shared_ptr<ct::core::tpl::ActivationBase<SCALAR_EVAL>> c_i;
         CT_LOADABLE_ACTIVATIONS(SCALAR_EVAL);
-        c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
         if (!c_i)
         {
             throw std::runtime_error("Activation type \"" + activationKind + "\" not supported");
         }
         else
         {
+            c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
             c_i_ = c_i;
             if (verbose)
                 c_i_->printInfo();
-- 
2.43.0


From 471ce22aa6b2c4505aa80a36d3b2ebe8c3cda16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:56 +0000
Subject: [PATCH 17/43] fix: terminal constraint Jacobians require the terminal
 constraints to be initialized

---
 .../ct/optcon/constraint/ConstraintContainerAnalytical-impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
index 237c492..11cbe99 100644
--- a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
@@ -190,7 +190,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::VectorXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparseTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
@@ -211,7 +211,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::MatrixXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
-- 
2.43.0


From 8ab0783e21e5be67c38d915498d2258861b78979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:56 +0000
Subject: [PATCH 18/43] fix: evaluate switched terminal constraints at the
 current state and control

---
 .../optcon/constraint/SwitchedLinearConstraintContainer-impl.h   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index 992e6c3..bdb8a28 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -218,6 +218,7 @@ void SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::update()
     auto mode = continuousModeSequence_.getPhaseFromTime(this->t_);
     activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.at(mode);
     activeLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
+    terminalLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
 
     this->lowerBoundsIntermediate_ = activeLinearConstraintContainer_->getLowerBoundsIntermediate();
     this->upperBoundsIntermediate_ = activeLinearConstraintContainer_->getUpperBoundsIntermediate();
-- 
2.43.0


From fecccd1e454ad00849156fecb8697b1fd0068e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:56 +0000
Subject: [PATCH 19/43] fix: order of the default sparse constraint Jacobians
 must match their sparsity pattern

---
 .../ct/optcon/constraint/term/ConstraintBase-impl.h  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
index 9d85769..c862b5d 100644
--- a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
@@ -103,7 +103,11 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparse(const state_
 {
     MatrixXs jacState = jacobianState(x, u, t);
 
-    VectorXs jac(Eigen::Map<VectorXs>(jacState.data(), jacState.rows() * jacState.cols()));
+    // same element order as in sparsityPatternState(): row by row
+    VectorXs jac(jacState.rows() * jacState.cols());
+    for (int i = 0; i < jacState.rows(); i++)
+        for (int j = 0; j < jacState.cols(); j++)
+            jac(i * jacState.cols() + j) = jacState(i, j);
 
     return jac;
 }
@@ -116,7 +120,11 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianInputSparse(const state_
 {
     MatrixXs jacInput = jacobianInput(x, u, t);
 
-    VectorXs jac(Eigen::Map<VectorXs>(jacInput.data(), jacInput.rows() * jacInput.cols()));
+    // same element order as in sparsityPatternInput(): row by row
+    VectorXs jac(jacInput.rows() * jacInput.cols());
+    for (int i = 0; i < jacInput.rows(); i++)
+        for (int j = 0; j < jacInput.cols(); j++)
+            jac(i * jacInput.cols() + j) = jacInput(i, j);
     return jac;
 }
 
-- 
2.43.0


From e3c4a3dc927763288c3784b225335e22595012a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:56 +0000
Subject: [PATCH 20/43] fix: do not read the delay timer of the MPC if the
 delay is not measured

---
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 0f93e6b..28bb70e 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -214,15 +214,21 @@ public:
     {
         if (mpc_settings_.useExternalTiming_)
         {
-            ext_timer_.stop(externalTime);
-            lastMeasuredDelay_ = ext_timer_.getElapsedTime();
+            if (mpc_settings_.measureDelay_)
+            {
+                ext_timer_.stop(externalTime);
+                lastMeasuredDelay_ = ext_timer_.getElapsedTime();
+            }
             // measure how much time passed since last successful solve()
             ext_lastSolveTimer_.start(externalTime);
         }
         else
         {
-            timer_.stop();
-            lastMeasuredDelay_ = timer_.getElapsedTime();
+            if (mpc_settings_.measureDelay_)
+            {
+                timer_.stop();
+                lastMeasuredDelay_ = timer_.getElapsedTime();
+            }
             // measure how much time passed since last successful solve()
             lastSolveTimer_.start();
         }
-- 
2.43.0


From fc90ad8f356be5a014a96e3ee0340869d7deae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:12 +0000
Subject: [PATCH 21/43] fix: default policy handler reports that nothing was
 truncated

---
 .../include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
index 614f659..81b7d34 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
@@ -31,6 +31,7 @@ void PolicyHandler<POLICY, STATE_DIM, CONTROL_DIM, SCALAR>::truncateSolutionFron
     POLICY& policy,
     SCALAR& effectivelyTruncated)
 {
+    effectivelyTruncated = SCALAR(0.0);  // the policy is left as it is
 }
 
 template <typename POLICY, size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From 903503ff12831ef5d9477539a743d3a9ab48d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:12 +0000
Subject: [PATCH 22/43] fix: MPC time keeper uses the time horizon strategy set
 by the user

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h      | 1 +
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index fabc657..711d050 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -85,6 +85,7 @@ template <typename OPTCON_SOLVER>
 void MPC<OPTCON_SOLVER>::setTimeHorizonStrategy(std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy)
 {
     timeHorizonStrategy_ = timeHorizonStrategy;
+    timeKeeper_.setTimeHorizonStrategy(timeHorizonStrategy);
 }
 
 
diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 28bb70e..842c73b 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -196,6 +196,15 @@ public:
 	 * 	the new settings to be handed over
 	 */
     void updateSettings(const mpc_settings& settings) { mpc_settings_ = settings; }
+    //! update the time horizon strategy
+    /*!
+	 * @param timeHorizonStrategy
+	 * 	the new time horizon strategy to be used from now on
+	 */
+    void setTimeHorizonStrategy(std::shared_ptr<MpcTimeHorizon<SCALAR>> timeHorizonStrategy)
+    {
+        timeHorizonStrategy_ = timeHorizonStrategy;
+    }
     //! start measuring time elapsed during planning / solving the optimal control problem
     void startDelayMeasurement(const SCALAR& externalTime)
     {
-- 
2.43.0


From 39b91027034a3829c561e8d32773f411a676135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 23/43] fix: changing the forward integrator of the MPC left it
 bound to a destroyed temporary

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 711d050..1d8bbd4 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -289,7 +289,7 @@ void MPC<OPTCON_SOLVER>::updateSettings(const mpc_settings& settings)
     checkSettings(settings);
 
     if (settings.stateForwardIntegratorType_ != mpc_settings_.stateForwardIntegratorType_)
-        forwardIntegrator_ = ct::core::Integrator<STATE_DIM, Scalar_t>(dynamics_, settings.stateForwardIntegratorType_);
+        forwardIntegrator_.changeIntegrationType(settings.stateForwardIntegratorType_);
 
     mpc_settings_ = settings;
     timeKeeper_.updateSettings(settings);
-- 
2.43.0


From 64ad1169e429fe6920241538c8e19caf676acfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:22 +0000
Subject: [PATCH 24/43] fix: the extended Kalman filter predicted every
 measurement at time zero

---
 ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
index 743c12b..d99261c 100644
--- a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
@@ -64,7 +64,7 @@ auto ExtendedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update(co
         P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + dHdw * (R_)*dHdw.transpose()).inverse();
 
     // STEP 3 - state estimate correction
-    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_));
+    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_, t));
 
     // STEP 4 - covariance matrix correction
     P_ -= (K * dHdx * P_).eval();
-- 
2.43.0


From 905d19ef5c0f737fd4ce5b6b4b34993fcb3693b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:22 +0000
Subject: [PATCH 25/43] fix: the steady state Kalman filter did not compile,
 its settings constructor left P uninitialised

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index a0d1c6c..94680ce 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -31,6 +31,7 @@ SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::SteadyState
       R_(sskf_settings.R),
       maxDAREIterations_(sskf_settings.maxDAREIterations)
 {
+    P_.setZero();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
@@ -38,8 +39,8 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::predic
     const ct::core::Time& dt,
     const ct::core::Time& t) -> const state_vector_t&
 {
-    A_ = this->f_->computeDerivativeState(this->x_est_, u, t);
-    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, t);
+    A_ = this->f_->computeDerivativeState(this->x_est_, u, dt, t);
+    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, dt, t);
     return this->x_est_;
 }
 
-- 
2.43.0


From 68ae3ed39d7024c5ca0c37acec063fd725be9c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:22 +0000
Subject: [PATCH 26/43] fix: the unscented Kalman filter used uninitialised
 sigma point weights

---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 2e5dfb5..b2284f1 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -62,6 +62,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
     const ct::core::StateMatrix<STATE_DIM, SCALAR>& P0)
     : Base(f, h, x0), alpha_(alpha), beta_(beta), kappa_(kappa), P_(P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
@@ -75,6 +76,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
       kappa_(ukf_settings.kappa),
       P_(ukf_settings.P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
-- 
2.43.0


From c0677eddebaabf2e323b112ae4b43ec806877836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:22 +0000
Subject: [PATCH 27/43] fix: the unscented Kalman filter did not compile for
 outputs of another dimension than the state

---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 +-
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index b2284f1..c7d8903 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -266,7 +266,7 @@ void UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computeS
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
 template <size_t DIM>
 auto UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computePredictionFromSigmaPoints(
-    const SigmaPoints<DIM>& sigmaPoints) -> state_vector_t
+    const SigmaPoints<DIM>& sigmaPoints) -> Eigen::Matrix<SCALAR, DIM, 1>
 {
     // Use efficient matrix x vector computation
     return sigmaPoints * sigmaWeights_m_;
diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
index bffac4c..05f525d 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
@@ -149,7 +149,7 @@ public:
 
     //! Make a prediction based on sigma points.
     template <size_t DIM>
-    state_vector_t computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
+    Eigen::Matrix<SCALAR, DIM, 1> computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
 
 private:
     state_matrix_t P_;                                          //! Covariance matrix.
-- 
2.43.0


From e61d21ba4c1f36e2bc51048a127c66fecc98f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:22 +0000
Subject: [PATCH 28/43] fix: the copy of an input disturbed system was
 initialised from itself

---
 ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
index c73e369..605225d 100644
--- a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
@@ -18,7 +18,7 @@ InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(const InputDisturbedSystem& other)
-    : Base(*this), system_(other.system_->clone())
+    : Base(other), system_(other.system_->clone())
 {
 }
 
-- 
2.43.0


From ba4739ecdfe7754ea4e836376bcdd21d85fdf72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:46 +0000
Subject: [PATCH 29/43] fix: copying a disturbed system controller without
 nominal controller dereferenced null

---
 .../include/ct/optcon/filter/DisturbedSystemController-impl.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
index c4b6c1d..6a3fdd1 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
@@ -18,7 +18,7 @@ DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSy
 template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR>
 DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSystemController(
     const DisturbedSystemController& other)
-    : controller_(other.controller_->clone())
+    : controller_(other.controller_ ? other.controller_->clone() : nullptr)
 {
 }
 
-- 
2.43.0


From f522fcf4e09666c5086d2aadc067be2a0d5b41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:29 +0000
Subject: [PATCH 30/43] fix: FHDTLQR linearised a time-varying system at time
 zero for every stage

---
 ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
index 73f626d..a901f5a 100644
--- a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
@@ -65,8 +65,8 @@ void FHDTLQR<STATE_DIM, CONTROL_DIM, SCALAR>::linearizeModel(const state_vector_
 
     for (int i = 0; i < N; i++)
     {
-        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i]);
-        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i]);
+        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i], i * dt);
+        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i], i * dt);
     }
 }
 
-- 
2.43.0


From 1dc272b700c5c4051163070eda05a0d153ca077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:23 +0000
Subject: [PATCH 31/43] fix: OptVectorDms::setInitGuess interpolates linearly
 instead of truncating the ratio to an integer

---
 .../ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
index 39ce2d7..69181be 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
@@ -110,7 +110,7 @@ void OptVectorDms<STATE_DIM, CONTROL_DIM, SCALAR>::setInitGuess(const state_vect
                 break;
             }
             case 1:
-                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (i / (numPairs_ - 1));
+                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (SCALAR(i) / SCALAR(numPairs_ - 1));
                 break;
         }
         this->xInit_.segment(q_index, CONTROL_DIM) = u0;
-- 
2.43.0


From 5a9157a92f7e97e74c32f317d109d703411223b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:23 +0000
Subject: [PATCH 32/43] fix: CostEvaluatorSimple weighs the last node with the
 last shot, not with one past the end of the grid

---
 .../ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 7bd7a0a..2bb149b 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -141,7 +141,7 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updatePhi()
             for (size_t i = 1; i < settings_.N_; i++)
                 phi_(i) = SCALAR(0.5) * (timeGrid_->getShotEndTime(i) - timeGrid_->getShotStartTime(i - 1));
 
-            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_));
+            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_ - 1));
             break;
         }
         default:
-- 
2.43.0


From 16507a44190bceb7f908e6f2c9036517595fb9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:23 +0000
Subject: [PATCH 33/43] fix: ConstraintDiscretizer counts the input Jacobian of
 general constraints

---
 .../ct/optcon/dms/constraints/ConstraintDiscretizer.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index 04940e9..e801f02 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -110,8 +110,10 @@ public:
         discreteLowerBound_.resize(constraintsCount_);
         discreteUpperBound_.resize(constraintsCount_);
 
-        nonZeroJacCountIntermediate_ += (N_ + 1) * generalConstraints->getJacobianStateNonZeroCountIntermediate();
-        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal();
+        nonZeroJacCountIntermediate_ += (N_ + 1) * (generalConstraints->getJacobianStateNonZeroCountIntermediate() +
+                                                       generalConstraints->getJacobianInputNonZeroCountIntermediate());
+        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal() +
+                                    generalConstraints->getJacobianInputNonZeroCountTerminal();
         nonZeroJacCount_ = nonZeroJacCountIntermediate_ + nonZeroJacCountTerminal_;
 
         discreteJac_.resize(nonZeroJacCount_);
-- 
2.43.0


From f0f3b0c08c0ab8721dd2864d97adb1d8f348330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:24 +0000
Subject: [PATCH 34/43] fix: DmsProblem::changeInitialState also moves the
 initial state constraint

---
 ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 2fbf7d1..95a9610 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -256,7 +256,8 @@ public:
 	 */
     void changeInitialState(const state_vector_t& x0)
     {
-        // constraints_->changeInitialConstraint(x0);
+        std::static_pointer_cast<ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>>(this->constraints_)
+            ->changeInitialConstraint(x0);
         optVariablesDms_->changeInitialState(x0);
     }
 
-- 
2.43.0


From a485965af48aa7cb35eae31c04ce5d867dcc3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:24 +0000
Subject: [PATCH 35/43] fix: LinearSpliner returns the last node instead of
 reading past the end of the grid

---
 .../ct/optcon/dms/dms_core/spline/Linear/LinearSpliner.h  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/spline/Linear/LinearSpliner.h b/ct_optcon/include/ct/optcon/dms/dms_core/spline/Linear/LinearSpliner.h
index c9540c5..748b349 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/spline/Linear/LinearSpliner.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/spline/Linear/LinearSpliner.h
@@ -44,13 +44,17 @@ public:
         Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> result;
         result.resize(T::DIM);
 
+        assert(shotIdx < nodes_.size());
+
+        // the last node does not start a shot: there is nothing left to interpolate with
+        if (shotIdx + 1 >= nodes_.size())
+            return nodes_[shotIdx];
+
         //		int shotIdx = timeGrid_->getShotIndex(time);
         SCALAR t_shot = timeGrid_->getShotDuration(shotIdx);     /* current duration of a whole shot*/
         SCALAR t_s_start = timeGrid_->getShotStartTime(shotIdx); /* time when this particular shot started */
         SCALAR t_s_end = timeGrid_->getShotEndTime(shotIdx);     /* time when this particular shot ends */
 
-        assert(shotIdx < nodes_.size());
-
         result = nodes_[shotIdx] * (t_s_end - time) / t_shot + nodes_[shotIdx + 1] * (time - t_s_start) / t_shot;
 
         return result;
-- 
2.43.0


From e31f88dc993ed33344c05f59b26a397b0830033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:50 +0000
Subject: [PATCH 36/43] fix: OptVector starts from a defined initial guess

The constructor left xInit_ uninitialised: a solver started without an initial
guess was handed whatever the allocated memory contained.
---
 ct_optcon/include/ct/optcon/nlp/OptVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/nlp/OptVector.h b/ct_optcon/include/ct/optcon/nlp/OptVector.h
index c0c26df..6c5bdff 100644
--- a/ct_optcon/include/ct/optcon/nlp/OptVector.h
+++ b/ct_optcon/include/ct/optcon/nlp/OptVector.h
@@ -41,6 +41,7 @@ public:
         x_.resize(n);
         x_.setZero();
         xInit_.resize(n);
+        xInit_.setZero();
         xLb_.resize(n);
         xUb_.resize(n);
         xLb_.setConstant(std::numeric_limits<SCALAR>::lowest());
-- 
2.43.0


From a50d07d3b9bb213e990773775f47893f85f3f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:50 +0000
Subject: [PATCH 37/43] fix: OptVector sizes the constraint multipliers by the
 number of constraints

lambda_ holds one multiplier per constraint, but it was only ever sized by
resizeOptimizationVars(), and there by the number of variables; before the first
solution getLambdaVars() read past its end. The multipliers and states of the
variables were not resized along with the variables.
---
 ct_optcon/include/ct/optcon/nlp/OptVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nlp/OptVector.h b/ct_optcon/include/ct/optcon/nlp/OptVector.h
index 6c5bdff..af3609a 100644
--- a/ct_optcon/include/ct/optcon/nlp/OptVector.h
+++ b/ct_optcon/include/ct/optcon/nlp/OptVector.h
@@ -64,6 +64,8 @@ public:
      */
     void resizeConstraintVars(size_t m)
     {
+        lambda_.resize(m);
+        lambda_.setZero();
         zMul_.resize(m + 1);
         zMul_.setZero();
         zState_.resize(m + 1);
@@ -86,7 +88,8 @@ public:
         xInit_.resize(size);
         xLb_.resize(size);
         xUb_.resize(size);
-        lambda_.resize(size);
+        xMul_.resize(size);
+        xState_.resize(size);
         zUpper_.resize(size);
         zLow_.resize(size);
     }
-- 
2.43.0


From 5514e6206e8bdd02f6e90544f1380f7c376a88ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:50 +0000
Subject: [PATCH 38/43] fix: NlpSolver constructed from an NLP is not
 initialised yet

isInitialized_ was left indeterminate by this constructor.
---
 ct_optcon/include/ct/optcon/nlp/solver/NlpSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nlp/solver/NlpSolver.h b/ct_optcon/include/ct/optcon/nlp/solver/NlpSolver.h
index f5e29c7..ff49a8d 100644
--- a/ct_optcon/include/ct/optcon/nlp/solver/NlpSolver.h
+++ b/ct_optcon/include/ct/optcon/nlp/solver/NlpSolver.h
@@ -32,7 +32,7 @@ public:
 	 *
 	 * @param[in]  nlp   The nlp
 	 */
-    NlpSolver(std::shared_ptr<Nlp<SCALAR>> nlp) : nlp_(nlp) {}
+    NlpSolver(std::shared_ptr<Nlp<SCALAR>> nlp) : nlp_(nlp), isInitialized_(false) {}
     /**
 	 * @brief      Custom constructor 2
 	 *
-- 
2.43.0


From 342e9b7d4ee461818245fa4b6badac34af07d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 39/43] fix: UnscentedKalmanFilterSettings reads alpha, beta
 and kappa as numbers

They were read as bool: any value other than 0 or 1 (alpha is typically 1e-3)
made load() throw.
---
 ct_optcon/include/ct/optcon/filter/FilterSettings.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index 596b149..26247e2 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -213,9 +213,9 @@ struct UnscentedKalmanFilterSettings
         boost::property_tree::read_info(filename, pt);
 
         ct::core::loadMatrix(filename, "x0", x0, ns);
-        alpha = pt.get<bool>(ns + ".alpha");
-        beta = pt.get<bool>(ns + ".beta");
-        kappa = pt.get<bool>(ns + ".kappa");
+        alpha = pt.get<SCALAR>(ns + ".alpha");
+        beta = pt.get<SCALAR>(ns + ".beta");
+        kappa = pt.get<SCALAR>(ns + ".kappa");
         ct::core::loadMatrix(filename, "P0", P0, ns);
 
         if (verbose)
-- 
2.43.0


From f5392e947b78303b83e8dd7be6d6fee10d8d9450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 40/43] fix: steady state and unscented KF settings read their
 matrices from the namespace of their scalars

Scalars were read from ns + ".name", matrices from ns + "name": no namespace
made both available, and a matrix that is not found is silently zero.
---
 ct_optcon/include/ct/optcon/filter/FilterSettings.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index 26247e2..d8473ab 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -113,7 +113,7 @@ struct SteadyStateKalmanFilterSettings
         boost::property_tree::read_info(filename, pt);
 
         maxDAREIterations = pt.get<size_t>(ns + ".maxDAREIterations", 1000);
-        ct::core::loadMatrix(filename, "x0", x0, ns);
+        ct::core::loadMatrix(filename, "x0", x0, ns + ".");
 
         if (verbose)
         {
@@ -212,11 +212,11 @@ struct UnscentedKalmanFilterSettings
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
 
-        ct::core::loadMatrix(filename, "x0", x0, ns);
+        ct::core::loadMatrix(filename, "x0", x0, ns + ".");
         alpha = pt.get<SCALAR>(ns + ".alpha");
         beta = pt.get<SCALAR>(ns + ".beta");
         kappa = pt.get<SCALAR>(ns + ".kappa");
-        ct::core::loadMatrix(filename, "P0", P0, ns);
+        ct::core::loadMatrix(filename, "P0", P0, ns + ".");
 
         if (verbose)
         {
-- 
2.43.0


From f44b4e631c74fcdd3d77f1212ee724bd208f44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:58 +0000
Subject: [PATCH 41/43] fix: IpoptSettings reads print_frequency_iter under its
 own name

The key had a trailing underscore, unlike every other entry of the file.
---
 ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h b/ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h
index 68d49a4..d06363b 100644
--- a/ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h
+++ b/ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h
@@ -226,7 +226,7 @@ public:
         setParameterIfExists(pt, linear_scaling_on_demand_, "linear_scaling_on_demand", ns);
         setParameterIfExists(pt, nlp_scaling_method_, "nlp_scaling_method", ns);
         setParameterIfExists(pt, print_user_options_, "print_user_options", ns);
-        setParameterIfExists(pt, print_frequency_iter_, "print_frequency_iter_", ns);
+        setParameterIfExists(pt, print_frequency_iter_, "print_frequency_iter", ns);
         setParameterIfExists(pt, printInfoString_, "printInfoString", ns);
         setParameterIfExists(pt, derivativeTestTol_, "derivativeTestTol", ns);
         setParameterIfExists(pt, derivativeTestPerturbation_, "derivativeTestPerturbation", ns);
-- 
2.43.0


From 57259d6ebd318a35e2288ab77efbb5a6c4c72d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:22 +0000
Subject: [PATCH 42/43] fix: multi-threaded line search keeps the largest
 accepted step

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 45f183f..15740b4 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -507,7 +507,8 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         bool stepAccepted =
             this->acceptStep(alpha, intermediateCost, finalCost, defectNorm, e_box_norm, e_gen_norm, lowestCostPrevious_, cost);
 
-        if (stepAccepted)
+        // a larger step that has been accepted already takes precedence, like in the single-threaded line search
+        if (stepAccepted && alphaExp < alphaExpBest_)
         {
             // make sure we do not alter an existing result
             if (alphaBestFound_)
-- 
2.43.0


From ce2761286edfb62272a92d84d5c74d615490e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:22 +0000
Subject: [PATCH 43/43] fix: notifications between NLOCBackendMP and its
 workers cannot get lost

---
 .../ct/optcon/nloc/NLOCBackendMP-impl.hpp     | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 15740b4..14463dc 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -47,7 +47,11 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, type
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::shutdownRoutine()
 {
     workersActive_ = false;
-    workerTask_ = SHUTDOWN;
+    {
+        // a worker must not miss the change between its check and its wait
+        std::lock_guard<std::mutex> wakeUpLock(workerWakeUpMutex_);
+        workerTask_ = SHUTDOWN;
+    }
     workerWakeUpCondition_.notify_all();
 
 #ifdef DEBUG_PRINT_MP
@@ -248,7 +252,11 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Waking up workers to do LQ approximation.");
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = COMPUTE_LQ_PROBLEM;
+    {
+        // a worker must not miss the change between its check and its wait
+        std::lock_guard<std::mutex> wakeUpLock(workerWakeUpMutex_);
+        workerTask_ = COMPUTE_LQ_PROBLEM;
+    }
     workerWakeUpCondition_.notify_all();
 
 #ifdef DEBUG_PRINT_MP
@@ -288,7 +296,10 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 
             //kCompleted_++;
             if (kCompleted_.load() > KMax_ - KMin_)
+            {
+                std::lock_guard<std::mutex> completedLock(kCompletedMutex_);
                 kCompletedCondition_.notify_all();
+            }
             return;
         }
 
@@ -348,7 +359,11 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers to do shot rollouts." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = ROLLOUT_SHOTS;
+    {
+        // a worker must not miss the change between its check and its wait
+        std::lock_guard<std::mutex> wakeUpLock(workerWakeUpMutex_);
+        workerTask_ = ROLLOUT_SHOTS;
+    }
     workerWakeUpCondition_.notify_all();
 
 #ifdef DEBUG_PRINT_MP
@@ -380,7 +395,10 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
         if (k > KMax_ - KMin_)
         {
             if (kCompleted_.load() > KMax_ - KMin_)
+            {
+                std::lock_guard<std::mutex> completedLock(kCompletedMutex_);
                 kCompletedCondition_.notify_all();
+            }
             return;
         }
 
@@ -421,7 +439,11 @@ SCALAR NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = LINE_SEARCH;
+    {
+        // a worker must not miss the change between its check and its wait
+        std::lock_guard<std::mutex> wakeUpLock(workerWakeUpMutex_);
+        workerTask_ = LINE_SEARCH;
+    }
     workerWakeUpCondition_.notify_all();
 
 #ifdef DEBUG_PRINT_MP
@@ -577,6 +599,7 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         }
         if (allPreviousAlphasProcessed)
         {
+            std::lock_guard<std::mutex> bestFoundLock(alphaBestFoundMutex_);
             alphaBestFound_ = true;
             alphaBestFoundCondition_.notify_all();
         }
-- 
2.43.0

