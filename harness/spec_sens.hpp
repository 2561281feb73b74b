#pragma once
#include "spec.hpp"
// ------------------------------------------------------------------ discretisation and sensitivities
namespace spec { namespace C11 {
using namespace ct::core;
using X = StateVector<NX>;
using U = ControlVector<NU>;
using A_t = StateMatrix<NX>;
using B_t = StateControlMatrix<NX, NU>;
using App = SensitivityApproximation<NX, NU>;
using App4 = SensitivityApproximation<4, 2, 2, 2>;
using Sen = SensitivityIntegrator<NX, NU>;
using Sen4 = SensitivityIntegrator<4, 2, 2, 2>;
using AB = Sen::sensitivities_matrix_t;
using AB4 = Sen4::sensitivities_matrix_t;
using Lin = LinearSystem<NX, NU>;
using Dis = SystemDiscretizer<NX, NU>;
using Dis4 = SystemDiscretizer<4, 2, 2, 2>;
using AP = SensitivityApproximationSettings::APPROXIMATION;
using Csys = std::shared_ptr<ControlledSystem<NX, NU>>;
using Eu = internal::StepperEulerCT<AB, double>;
using Rk = internal::StepperRK4CT<AB, double>;

void App__getAandB(App& s, const X& x, const U& u, const X& xn, const int n, const size_t m, A_t& A, B_t& B)
{
    assume(s.settings_.approximation_ != AP::SYMPLECTIC_EULER);  // needs position and velocity parts that make up the state
    if (!s.linearSystem_)
        throw 1;
    const double dt = s.settings_.dt_;
    const A_t I = A_t::Identity();
    A_t Ac, Ae;
    B_t Bc;
    switch (s.settings_.approximation_)
    {
        case AP::FORWARD_EULER:
            s.linearSystem_->getDerivatives(Ac, Bc, x, u, n * dt);
            A = I + dt * Ac;
            B = dt * Bc;
            break;
        case AP::BACKWARD_EULER:
            s.linearSystem_->getDerivatives(Ac, Bc, xn, u, (n + 1) * dt);
            A = (I - dt * Ac).inverse();
            B = A * dt * Bc;
            break;
        case AP::TUSTIN:
            s.linearSystem_->getDerivatives(Ac, Bc, x, u, n * dt);
            Ae = s.linearSystem_->getDerivativeState(xn, u, (n + 1) * dt);
            A = (I - 0.5 * dt * Ae).inverse() * (I + 0.5 * dt * Ac);
            B = (I - 0.5 * dt * Ae).inverse() * dt * Bc;
            break;
        case AP::MATRIX_EXPONENTIAL:
            s.linearSystem_->getDerivatives(Ac, Bc, x, u, n * dt);
            Ae = dt * Ac;
            A = Ae.exp();
            B = Ac.inverse() * (A - I) * Bc;
            break;
        default:
            throw 1;
    }
}
// symplectic Euler: positions move with the derivative at the start, velocities with the one at the updated positions
void App4__getAandB__sym(App4& s, const StateVector<4>& x, const ControlVector<2>& u, const StateVector<4>& xn, const int n, const size_t m,
    StateMatrix<4>& A, StateControlMatrix<4, 2>& B)
{
    given(s.settings_.approximation_, AP::SYMPLECTIC_EULER);
    if (!s.linearSystem_)
        throw 1;
    const double dt = s.settings_.dt_;
    StateVector<4> xi;
    xi << xn(0), xn(1), x(2), x(3);
    StateMatrix<4> A1, A2;
    StateControlMatrix<4, 2> B1, B2;
    s.linearSystem_->getDerivatives(A1, B1, x, u, n * dt);
    s.linearSystem_->getDerivatives(A2, B2, xi, u, n * dt);
    // chain rule over the two half updates
    StateMatrix<4> P = StateMatrix<4>::Identity(), V = StateMatrix<4>::Identity();
    P.topRows<2>() += dt * A1.topRows<2>();
    V.bottomRows<2>() += dt * A2.bottomRows<2>();
    A = V * P;
    StateControlMatrix<4, 2> BP, BV;
    BP.topRows<2>() = dt * B1.topRows<2>();
    BP.bottomRows<2>().setZero();
    BV.topRows<2>().setZero();
    BV.bottomRows<2>() = dt * B2.bottomRows<2>();
    B = V * BP + BV;
}
void App__setApproximation(App& s, const AP& a) { s.settings_.approximation_ = a; }
AP App__getApproximation(App& s) { return s.settings_.approximation_; }
void App__setLinearSystem(App& s, const std::shared_ptr<Lin>& l) { s.linearSystem_ = l; }
void App__setTimeDiscretization(App& s, const double& dt) { s.settings_.dt_ = dt; }
void App__updateSettings(App& s, const SensitivityApproximationSettings& c)
{
    s.settings_.dt_ = c.dt_;
    s.settings_.approximation_ = c.approximation_;
}
void App__ctor__dt(App& s, const double& dt, const std::shared_ptr<Lin>& l, const AP& a)
{
    s.linearSystem_ = l;
    s.settings_.dt_ = dt;
    s.settings_.approximation_ = a;
}
void App__ctor__set(App& s, const SensitivityApproximationSettings& c, const std::shared_ptr<Lin>& l)
{
    s.linearSystem_ = l;
    s.settings_.dt_ = c.dt_;
    s.settings_.approximation_ = c.approximation_;
}
void App__ctor__copy(App& s, const App& o)
{
    s.settings_.dt_ = o.settings_.dt_;
    s.settings_.approximation_ = o.settings_.approximation_;
    if (o.linearSystem_)
        s.linearSystem_ = std::shared_ptr<Lin>(o.linearSystem_->clone());
}
// ------------------------------------------------------------------ integrated sensitivities
void Sen__integrateSensitivity(Sen& s, const size_t k, const size_t n, A_t& A, B_t& B)
{
    AB ab;
    ab.setZero();
    for (int i = 0; i < (int)NX; i++)
        ab(i, i) = 1.0;
    s.k_ = k;
    s.substep_ = 0;
    for (size_t i = 0; i < n; i++)
        s.stepper_->do_step(s.dFdxDot_, ab, (k * n + i) * s.dt_, s.dt_);
    for (int i = 0; i < (int)NX; i++)
    {
        for (int j = 0; j < (int)NX; j++)
            A(i, j) = ab(i, j);
        for (int j = 0; j < (int)NU; j++)
            B(i, j) = ab(i, NX + j);
    }
}
void Sen__getAandB(Sen& s, const X& x, const U& u, const X& xn, const int n, const size_t m, A_t& A, B_t& B)
{
    s.x_next_ = xn;
    if (!s.timeVarying_)
    {
        s.Aconst_ = s.linearSystem_->getDerivativeState(x, u, n * m * s.dt_);
        s.Bconst_ = s.linearSystem_->getDerivativeControl(x, u, n * m * s.dt_);
    }
    s.integrateSensitivity(n, m, A, B);
}
void Sen__setStepper(Sen& s, const IntegrationType k)
{
    s.symplectic_ = false;
    if (k == EULERCT || k == EULER || k == EULER_SYM)
        s.stepper_ = std::shared_ptr<internal::StepperCTBase<AB, double>>(new Eu());
    else if (k == RK4 || k == IntegrationType::RK4CT)
        s.stepper_ = std::shared_ptr<internal::StepperCTBase<AB, double>>(new Rk());
    else
        throw 1;
    if (k == EULER_SYM)
        s.symplectic_ = true;
}
void Sen__setLinearSystem(Sen& s, const std::shared_ptr<Lin>& l) { s.linearSystem_ = l; }
void Sen__setTimeDiscretization(Sen& s, const double& dt) { s.dt_ = dt; }
// variational equation at the recorded substep of stage k
void Sen__scnRhs__use(Sen& s, const AB& in, AB& d, const double t)
{
    assume(!s.symplectic_);
    s.initStepper();
    s.dFdxDot_(in, d, t);
}
void Sen__scnRhs__expect(Sen& s, const AB& in, AB& d, const double t)
{
    assume(!s.symplectic_);
    const X& x = (*(*s.xSubstep_)[s.k_])[s.substep_];
    const U& u = (*(*s.uSubstep_)[s.k_])[s.substep_];
    A_t A = s.Aconst_;
    B_t B = s.Bconst_;
    if (s.timeVarying_)
    {
        A = s.linearSystem_->getDerivativeState(x, u, t);
        B = s.linearSystem_->getDerivativeControl(x, u, t);
    }
    const Eigen::Matrix<double, NU, NU> G = s.controller_->getDerivativeU0(x, t);
    d = A * in;
    d.rightCols<NU>() += B * G;
    s.substep_++;
}
void Sen4__scnSym__use(Sen4& s, const AB4& in, AB4& d, const double t)
{
    assume(s.symplectic_);
    s.initStepper();
    s.dFdxDot_(in, d, t);
}
void Sen4__scnSym__expect(Sen4& s, const AB4& in, AB4& d, const double t)
{
    assume(s.symplectic_);
    const StateVectorArray<4>& xs = *(*s.xSubstep_)[s.k_];
    const StateVector<4>& x = xs[s.substep_];
    const ControlVector<2>& u = (*(*s.uSubstep_)[s.k_])[s.substep_];
    const StateVector<4> xn = s.substep_ + 1 < xs.size() ? xs[s.substep_ + 1] : s.x_next_;
    StateVector<4> xi;
    xi << xn(0), xn(1), x(2), x(3);
    StateMatrix<4> A1 = s.linearSystem_->getDerivativeState(x, u, t), A2 = s.linearSystem_->getDerivativeState(xi, u, t);
    StateControlMatrix<4, 2> B1 = s.linearSystem_->getDerivativeControl(x, u, t), B2 = s.linearSystem_->getDerivativeControl(xi, u, t);
    const Eigen::Matrix<double, 2, 2> G = s.controller_->getDerivativeU0(x, t);
    StateMatrix<4> P = StateMatrix<4>::Identity();
    P.topRows<2>() += s.dt_ * A1.topRows<2>();
    StateMatrix<4> A;
    A.topRows<2>() = A1.topRows<2>();
    A.bottomRows<2>() = (A2 * P).bottomRows<2>();
    StateControlMatrix<4, 2> BP = StateControlMatrix<4, 2>::Zero(), B;
    BP.topRows<2>() = s.dt_ * B1.topRows<2>();
    B.topRows<2>() = B1.topRows<2>();
    B.bottomRows<2>() = (B2 + A2 * BP).bottomRows<2>();
    d = A * in;
    d.rightCols<2>() += B * G;
    s.substep_++;
}
// ------------------------------------------------------------------ discretised systems
void Dis__setParameters(Dis& s, const double& dt, const int& K)
{
    s.dt_ = dt;
    s.K_sim_ = K;
    s.dt_sim_ = dt / K;
}
double Dis__getSimulationTimestep(Dis& s) { return s.dt_ / s.K_sim_; }
void Dis__setIntegrationType(Dis& s, const IntegrationType& k) { s.integratorType_ = k; }
void Dis__ctor__par(Dis& s, const double& dt, const IntegrationType& k, const int& K)
{
    s.dt_ = dt;
    s.K_sim_ = K;
    s.dt_sim_ = dt / K;
    s.integratorType_ = k;
    s.cont_constant_controller_ = std::shared_ptr<ConstantController<NX, NU>>(new ConstantController<NX, NU>());
}
void Dis__ctor__sys(Dis& s, Csys y, const double& dt, const IntegrationType& k, const int& K)
{
    s.dt_ = dt;
    s.K_sim_ = K;
    s.dt_sim_ = dt / K;
    s.integratorType_ = k;
    s.cont_constant_controller_ = std::shared_ptr<ConstantController<NX, NU>>(new ConstantController<NX, NU>());
    s.changeContinuousTimeSystem(y);
}
void Dis__ctor__copy(Dis& s, const Dis& o)
{
    s.controller_ = o.controller_;
    s.dt_ = o.dt_;
    s.K_sim_ = o.K_sim_;
    s.dt_sim_ = o.dt_sim_;
    s.integratorType_ = o.integratorType_;
    s.cont_constant_controller_ = std::shared_ptr<ConstantController<NX, NU>>(new ConstantController<NX, NU>());
    if (o.cont_time_system_)
        s.changeContinuousTimeSystem(o.cont_time_system_);
}
// the discretiser owns a copy of the system, driven by its own constant controller
void Dis__changeContinuousTimeSystem(Dis& s, Csys y)
{
    s.cont_time_system_ = Csys(y->clone());
    s.cont_time_system_->setController(s.cont_constant_controller_);
    s.initialize();
}
void Dis__initialize(Dis& s)
{
    s.substepRecorder_ = std::shared_ptr<SubstepRecorder<NX, NU>>(new SubstepRecorder<NX, NU>(s.cont_time_system_));
    if (s.integratorType_ != EULER_SYM && s.integratorType_ != RK_SYM)
        s.integrator_ = std::shared_ptr<Integrator<NX>>(new Integrator<NX>(s.cont_time_system_, s.integratorType_, s.substepRecorder_));
}
// control held over the interval, K_sim steps of dt_sim from time n*dt
void Dis__propagateControlledDynamics(Dis& s, const X& x, const int n, const U& u, X& xn)
{
    s.cont_constant_controller_->setControl(u);
    s.substepRecorder_->reset();
    xn = x;
    if (s.integratorType_ == EULER_SYM || s.integratorType_ == RK_SYM)
        throw 1;
    s.integrator_->integrate_n_steps(xn, n * s.dt_, s.K_sim_, s.dt_sim_);
}
void Dis4__propagateControlledDynamics__sym(Dis4& s, const StateVector<4>& x, const int n, const ControlVector<2>& u, StateVector<4>& xn)
{
    s.cont_constant_controller_->setControl(u);
    s.substepRecorder_->reset();
    xn = x;
    const bool sym = s.integratorType_ == EULER_SYM || s.integratorType_ == RK_SYM;
    if (sym && !s.cont_time_system_->isSymplectic())
        throw 1;
    if (s.integratorType_ == EULER_SYM)
        s.integratorEulerSymplectic_->integrate_n_steps(xn, n * s.dt_, s.K_sim_, s.dt_sim_);
    else if (s.integratorType_ == RK_SYM)
        s.integratorRkSymplectic_->integrate_n_steps(xn, n * s.dt_, s.K_sim_, s.dt_sim_);
    else
        s.integrator_->integrate_n_steps(xn, n * s.dt_, s.K_sim_, s.dt_sim_);
}
const std::shared_ptr<StateVectorArray<NX>>& Dis__getSubstates(Dis& s) { return s.substepRecorder_->getSubstates(); }
const std::shared_ptr<ControlVectorArray<NU>>& Dis__getSubcontrols(Dis& s) { return s.substepRecorder_->getSubcontrols(); }
}}
