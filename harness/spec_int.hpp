#pragma once
#include "spec.hpp"
// ------------------------------------------------------------------ integration
namespace spec { namespace C10 {
using namespace ct::core;
using X = StateVector<NX>;
using M = Eigen::Matrix<double, NX, 1>;
using Rhs = std::function<void(const M&, M&, double)>;
using ObsF = std::function<void(const M& x, const double& t)>;
using SB = internal::StepperBase<M, double>;
using EulerCT = internal::StepperEulerCT<M, double>;
using RK4CT = internal::StepperRK4CT<M, double>;
using Ode = internal::StepperODEInt<internal::euler_t<NX, double>, M, double>;
using Ctl = internal::StepperODEIntControlled<internal::runge_kutta_dopri5_t<NX, double>, M, double>;
using Dense = internal::StepperODEIntDenseOutput<internal::runge_kutta_dopri5_t<NX, double>, M, double>;
using Int = Integrator<NX>;
using Obs = Observer<NX>;
using XA = StateVectorArray<NX>;
using TA = tpl::TimeArray<double>;
using Max = MaxStepsEventHandler<NX>;
using Kill = KillIntegrationEventHandler<NX>;
using Rec = SubstepRecorder<NX, NU>;
using Sym = IntegratorSymplectic<2, 2, NU, internal::symplectic_euler_t<2, 2, double>>;
namespace oi = boost::numeric::odeint;

// explicit Euler: x+ = x + dt f(x,t)
void eulerStep(const Rhs& f, M& x, double t, double dt, M& d)
{
    f(x, d, t);
    x = x + dt * d;
}
// classic Runge-Kutta of order 4
void rk4Step(const Rhs& f, M& x, double t, double dt, M& a, M& b, M& c, M& d)
{
    M k1, k2, k3, k4;
    f(x, k1, t);
    M x2 = x + 0.5 * dt * k1;
    f(x2, k2, t + 0.5 * dt);
    M x3 = x + 0.5 * dt * k2;
    f(x3, k3, t + 0.5 * dt);
    M x4 = x + dt * k3;
    f(x4, k4, t + dt);
    x = x + dt / 6.0 * (k1 + 2.0 * k2 + 2.0 * k3 + k4);
    a = k1;
    b = k2;
    c = k3;
    d = k4;
}
void EulerCT__do_step(EulerCT& s, const Rhs& f, M& x, const double t, const double dt) { eulerStep(f, x, t, dt, s.derivative_); }
void RK4CT__do_step(RK4CT& s, const Rhs& f, M& x, const double t, const double dt)
{
    given(s.oneSixth_, 1.0 / 6.0);
    rk4Step(f, x, t, dt, s.k1_, s.k2_, s.k3_, s.k4_);
}
void RK4CT__ctor(RK4CT& s)
{
    s.oneSixth_ = 1.0 / 6.0;
    s.absErrTol_ = 1e-8;
    s.relErrTol_ = 1e-8;
}
void SB__ctor(SB& s)
{
    s.absErrTol_ = 1e-8;
    s.relErrTol_ = 1e-8;
}
void EulerCT__integrate_n_steps__quiet(EulerCT& s, const Rhs& f, M& x, const double& t0, size_t n, double dt)
{
    for (size_t i = 0; i < n; i++)
        eulerStep(f, x, t0 + i * dt, dt, s.derivative_);
}
void EulerCT__integrate_n_steps__obs(EulerCT& s, ObsF obs, const Rhs& f, M& x, const double& t0, size_t n, double dt)
{
    for (size_t i = 0; i < n; i++)
    {
        eulerStep(f, x, t0 + i * dt, dt, s.derivative_);
        obs(x, t0 + (i + 1) * dt);
    }
}
void RK4CT__integrate_n_steps__quiet(RK4CT& s, const Rhs& f, M& x, const double& t0, size_t n, double dt)
{
    given(s.oneSixth_, 1.0 / 6.0);
    for (size_t i = 0; i < n; i++)
        rk4Step(f, x, t0 + i * dt, dt, s.k1_, s.k2_, s.k3_, s.k4_);
}
void RK4CT__integrate_n_steps__obs(RK4CT& s, ObsF obs, const Rhs& f, M& x, const double& t0, size_t n, double dt)
{
    given(s.oneSixth_, 1.0 / 6.0);
    for (size_t i = 0; i < n; i++)
    {
        rk4Step(f, x, t0 + i * dt, dt, s.k1_, s.k2_, s.k3_, s.k4_);
        obs(x, t0 + (i + 1) * dt);
    }
}
// boost steppers: every argument reaches its odeint namesake
void Ode__integrate_n_steps__quiet(Ode& s, const Rhs& f, M& x, const double& t0, size_t n, double dt)
{
    oi::integrate_n_steps(s.stepper_, f, x, t0, dt, n);
}
void Ode__integrate_n_steps__obs(Ode& s, ObsF o, const Rhs& f, M& x, const double& t0, size_t n, double dt)
{
    oi::integrate_n_steps(s.stepper_, f, x, t0, dt, n, o);
}
void Ode__integrate_const__quiet(Ode& s, const Rhs& f, M& x, const double& t0, const double& t1, double dt)
{
    oi::integrate_const(s.stepper_, f, x, t0, t1, dt);
}
void Ode__integrate_const__obs(Ode& s, ObsF o, const Rhs& f, M& x, const double& t0, const double& t1, double dt)
{
    oi::integrate_const(s.stepper_, f, x, t0, t1, dt, o);
}
void Ode__integrate_adaptive__quiet(Ode& s, const Rhs& f, M& x, const double& t0, const double& t1, double dt)
{
    oi::integrate_adaptive(s.stepper_, f, x, t0, t1, dt);
}
void Ode__integrate_adaptive__obs(Ode& s, ObsF o, const Rhs& f, M& x, const double& t0, const double& t1, const double dt)
{
    oi::integrate_adaptive(s.stepper_, f, x, t0, t1, dt, o);
}
void Ode__integrate_times(Ode& s, ObsF o, const Rhs& f, M& x, const TA& t, double dt)
{
    oi::integrate_times(s.stepper_, f, x, &t.front(), &t.back() + 1, dt, o);
}
void Ctl__integrate_adaptive__quiet(Ctl& s, const Rhs& f, M& x, const double& t0, const double& t1, double dt)
{
    oi::integrate_adaptive(s.stepperControlled_, f, x, t0, t1, dt);
}
void Ctl__integrate_adaptive__obs(Ctl& s, ObsF o, const Rhs& f, M& x, const double& t0, const double& t1, const double dt)
{
    oi::integrate_adaptive(s.stepperControlled_, f, x, t0, t1, dt, o);
}
void Ctl__integrate_times(Ctl& s, ObsF o, const Rhs& f, M& x, const TA& t, double dt)
{
    oi::integrate_times(s.stepperControlled_, f, x, &t.front(), &t.back() + 1, dt, o);
}
void Dense__integrate_adaptive__quiet(Dense& s, const Rhs& f, M& x, const double& t0, const double& t1, double dt)
{
    s.stepperDense_.initialize(x, t0, dt);
    oi::integrate_adaptive(s.stepperDense_, f, x, t0, t1, dt);
}
void Dense__integrate_adaptive__obs(Dense& s, ObsF o, const Rhs& f, M& x, const double& t0, const double& t1, const double dt)
{
    s.stepperDense_.initialize(x, t0, dt);
    oi::integrate_adaptive(s.stepperDense_, f, x, t0, t1, dt, o);
}
void Dense__integrate_times(Dense& s, ObsF o, const Rhs& f, M& x, const TA& t, double dt)
{
    s.stepperDense_.initialize(x, t.front(), dt);
    oi::integrate_times(s.stepperDense_, f, x, &t.front(), &t.back() + 1, dt, o);
}
void Ctl__ctor(Ctl& s)
{
    s.absErrTol_ = 1e-8;
    s.relErrTol_ = 1e-8;
    s.stepperControlled_ = oi::make_controlled(s.absErrTol_, s.relErrTol_, internal::runge_kutta_dopri5_t<NX, double>());
}
void Dense__ctor(Dense& s)
{
    s.absErrTol_ = 1e-8;
    s.relErrTol_ = 1e-8;
    s.stepperDense_ = oi::make_dense_output(s.absErrTol_, s.relErrTol_, internal::runge_kutta_dopri5_t<NX, double>());
}
void SB__setAdaptiveErrorTolerances(SB& s, const double a, const double& r)
{
    s.absErrTol_ = a;
    s.relErrTol_ = r;
}
void Ctl__setAdaptiveErrorTolerances(Ctl& s, const double a, const double& r)
{
    s.absErrTol_ = a;
    s.relErrTol_ = r;
    s.stepperControlled_ = oi::make_controlled(a, r, static_cast<Ctl&>(s).stepper_);
}
void Dense__setAdaptiveErrorTolerances(Dense& s, const double a, const double& r)
{
    s.absErrTol_ = a;
    s.relErrTol_ = r;
    s.stepperDense_ = oi::make_dense_output(a, r, static_cast<Dense&>(s).stepper_);
}
// the vector algebra odeint builds its error norms from
void Eig__add__use(const double& a, const M& m, M& r) { r = a + m; }
void Eig__add__expect(const double& a, const M& m, M& r)
{
    for (int i = 0; i < (int)NX; i++)
        r(i) = a + m(i);
}
void Eig__div__use(const M& a, const M& b, M& r) { r = a / b; }
void Eig__div__expect(const M& a, const M& b, M& r)
{
    for (int i = 0; i < (int)NX; i++)
        r(i) = a(i) / b(i);
}
void Eig__abs__use(const M& a, M& r) { r = Eigen::abs(a); }
void Eig__abs__expect(const M& a, M& r)
{
    for (int i = 0; i < (int)NX; i++)
        r(i) = std::abs(a(i));
}
double Eig__norm__use(const M& a) { return oi::vector_space_norm_inf<M>()(a); }
double Eig__norm__expect(const M& a) { return std::max(std::abs(a(0)), std::max(std::abs(a(1)), std::abs(a(2)))); }
// ------------------------------------------------------------------ observer and integrator
void Obs__reset(Obs& s)
{
    for (size_t i = 0; i < s.eventHandlers_.size(); i++)
        s.eventHandlers_[i]->reset();
    s.states_.clear();
    s.times_.clear();
}
void Obs__observe(Obs& s, const X& x, const double& t)
{
    for (size_t i = 0; i < s.eventHandlers_.size(); i++)
        if (!s.eventHandlers_[i]->callOnSubsteps() && s.eventHandlers_[i]->checkEvent(x, t))
            s.eventHandlers_[i]->handleEvent(x, t);
}
void Obs__observeInternal(Obs& s, const X& x, const double& t)
{
    for (size_t i = 0; i < s.eventHandlers_.size(); i++)
        if (s.eventHandlers_[i]->callOnSubsteps() && s.eventHandlers_[i]->checkEvent(x, t))
            s.eventHandlers_[i]->handleEvent(x, t);
}
void Obs__log(Obs& s, const X& x, const double& t)
{
    s.states_.push_back(x);
    s.times_.push_back(t);
}
void Obs__ctor(Obs& s, const Obs::EventHandlerPtrVector& e) { s.eventHandlers_ = e; }
void Obs__scnWrap__use(const Obs::EventHandlerPtrVector& e, const X& x, const double& t)
{
    Obs o(e);
    o.observeWrap(x, t);
}
void Obs__scnWrap__expect(const Obs::EventHandlerPtrVector& e, const X& x, const double& t)
{
    Obs o(e);
    o.observe(x, t);
}
void Obs__scnLog__use(const Obs::EventHandlerPtrVector& e, const X& x, const double& t, XA& xs, TA& ts)
{
    Obs o(e);
    o.observeWrapWithLogging(x, t);
    xs = o.states_;
    ts = o.times_;
}
void Obs__scnLog__expect(const Obs::EventHandlerPtrVector& e, const X& x, const double& t, XA& xs, TA& ts)
{
    Obs o(e);
    o.observe(x, t);
    xs.clear();
    ts.clear();
    xs.push_back(x);
    ts.push_back(t);
}
void Int__integrate_n_steps__log(Int& s, X& x, const double& t0, size_t n, double dt, XA& xs, TA& ts)
{
    s.observer_.reset();
    s.integratorStepper_->integrate_n_steps(s.observer_.observeWrapWithLogging, s.systemFunction_, x, t0, n, dt);
    xs.swap(s.observer_.states_);
    ts.swap(s.observer_.times_);
}
void Int__integrate_n_steps__quiet(Int& s, X& x, const double& t0, size_t n, double dt)
{
    s.observer_.reset();
    s.integratorStepper_->integrate_n_steps(s.observer_.observeWrap, s.systemFunction_, x, t0, n, dt);
}
void Int__integrate_const__log(Int& s, X& x, const double& t0, const double& t1, double dt, XA& xs, TA& ts)
{
    s.observer_.reset();
    s.integratorStepper_->integrate_const(s.observer_.observeWrapWithLogging, s.systemFunction_, x, t0, t1, dt);
    xs.swap(s.observer_.states_);
    ts.swap(s.observer_.times_);
}
void Int__integrate_const__quiet(Int& s, X& x, const double& t0, const double& t1, double dt)
{
    s.observer_.reset();
    s.integratorStepper_->integrate_const(s.observer_.observeWrap, s.systemFunction_, x, t0, t1, dt);
}
void Int__integrate_adaptive__log(Int& s, X& x, const double& t0, const double& t1, XA& xs, TA& ts, const double dt)
{
    s.observer_.reset();
    s.integratorStepper_->integrate_adaptive(s.observer_.observeWrapWithLogging, s.systemFunction_, x, t0, t1, dt);
    xs.swap(s.observer_.states_);
    ts.swap(s.observer_.times_);
    x = xs.back();
}
void Int__integrate_adaptive__quiet(Int& s, X& x, const double& t0, const double& t1, double dt)
{
    s.observer_.reset();
    s.integratorStepper_->integrate_adaptive(s.observer_.observeWrap, s.systemFunction_, x, t0, t1, dt);
}
void Int__integrate_times(Int& s, X& x, const TA& t, XA& xs, double dt)
{
    s.observer_.reset();
    s.integratorStepper_->integrate_times(s.observer_.observeWrapWithLogging, s.systemFunction_, x, t, dt);
    xs.swap(s.observer_.states_);
}
void Int__setApadativeErrorTolerances(Int& s, const double a, const double& r) { s.integratorStepper_->setAdaptiveErrorTolerances(a, r); }
// the right-hand side handed to the stepper is the dynamics of the system; substep handlers see every evaluation
void Int__scnRhs__use(Int& s, const M& x, M& dx, double t)
{
    s.setupSystem();
    s.systemFunction_(x, dx, t);
}
void Int__scnRhs__expect(Int& s, const X& x, X& dx, double t)
{
    s.observer_.reset();
    s.system_->computeDynamics(x, t, dx);
    s.observer_.observeInternal(x, t);
}
template <class S>
std::shared_ptr<SB> mkS()
{
    return std::shared_ptr<S>(new S());
}
template <class B>
using OdeOf = internal::StepperODEInt<B, M, double>;
void Int__changeIntegrationType(Int& s, const IntegrationType& k)
{
    if (k == EULERCT)
        s.integratorStepper_ = mkS<EulerCT>();
    else if (k == IntegrationType::RK4CT)
        s.integratorStepper_ = mkS<RK4CT>();
    else if (k == EULER)
        s.integratorStepper_ = mkS<Ode>();
    else if (k == RK4)
        s.integratorStepper_ = mkS<OdeOf<internal::runge_kutta_4_t<NX, double>>>();
    else if (k == MODIFIED_MIDPOINT)
        s.integratorStepper_ = mkS<OdeOf<internal::modified_midpoint_t<NX, double>>>();
    else if (k == RK78)
        s.integratorStepper_ = mkS<OdeOf<internal::runge_kutta_fehlberg78_t<NX, double>>>();
    else if (k == ODE45)
        s.integratorStepper_ = mkS<Ctl>();
    else if (k == RK5VARIABLE)
        s.integratorStepper_ = mkS<Dense>();
    else if (k == BULIRSCHSTOER)
        s.integratorStepper_ = mkS<OdeOf<internal::bulirsch_stoer_t<NX, double>>>();
    if (!s.integratorStepper_)
        throw 1;
}
// ------------------------------------------------------------------ event handlers
bool Max__checkEvent(Max& s, const X& x, const double& t)
{
    s.stepsTaken_++;
    return s.stepsTaken_ > s.maxNumSteps_;
}
void Max__handleEvent(Max& s, const X& x, const double& t) { throw 1; }
void Max__reset(Max& s) { s.stepsTaken_ = 0; }
bool Max__callOnSubsteps(Max& s) { return false; }
void Max__setMaxNumSteps(Max& s, size_t n) { s.maxNumSteps_ = n; }
void Max__ctor(Max& s, const size_t& n)
{
    s.maxNumSteps_ = n;
    s.stepsTaken_ = 0;
}
bool Rec__callOnSubsteps(Rec& s) { return true; }
bool Rec__checkEvent(Rec& s, const X& x, const double& t) { return s.activated_; }
void Rec__handleEvent(Rec& s, const X& x, const double& t)
{
    s.states_->push_back(x);
    s.controls_->push_back(s.system_->getLastControlAction());
    s.times_->push_back(t);
}
void Rec__setEnable(Rec& s, bool a) { s.activated_ = a; }
// a reset must not touch the record handed out earlier
void Rec__reset(Rec& s)
{
    s.states_ = std::shared_ptr<XA>(new XA);
    s.controls_ = std::shared_ptr<ControlVectorArray<NU>>(new ControlVectorArray<NU>);
    s.times_ = std::shared_ptr<TA>(new TA);
}
void Rec__setControlledSystem(Rec& s, const std::shared_ptr<ControlledSystem<NX, NU>>& y) { s.system_ = y; }
const std::shared_ptr<XA>& Rec__getSubstates(Rec& s) { return s.states_; }
const std::shared_ptr<ControlVectorArray<NU>>& Rec__getSubcontrols(Rec& s) { return s.controls_; }
// ------------------------------------------------------------------ symplectic integration
void symStep(Sym& s, Sym::pair_t& p, StateVector<4>& x, double t, double dt)
{
    s.xCached_ = x;
    s.stepper_.do_step(std::make_pair(s.systemFunctionPosition_, s.systemFunctionVelocity_), p, t, dt);
    x(0) = p.first(0);
    x(1) = p.first(1);
    x(2) = p.second(0);
    x(3) = p.second(1);
    s.observer_.observeInternal(x, t);
}
void Sym__integrate_n_steps__log(Sym& s, StateVector<4>& x, const double& t0, size_t n, double dt, StateVectorArray<4>& xs, TA& ts)
{
    Sym::pair_t p;
    p.first << x(0), x(1);
    p.second << x(2), x(3);
    xs.push_back(x);
    ts.push_back(t0);
    for (size_t i = 0; i < n; i++)
    {
        symStep(s, p, x, t0 + i * dt, dt);
        xs.push_back(x);
        ts.push_back(t0 + (i + 1) * dt);
    }
}
void Sym__integrate_n_steps__quiet(Sym& s, StateVector<4>& x, const double& t0, size_t n, double dt)
{
    Sym::pair_t p;
    p.first << x(0), x(1);
    p.second << x(2), x(3);
    for (size_t i = 0; i < n; i++)
        symStep(s, p, x, t0 + i * dt, dt);
}
void Sym__reset(Sym& s) { s.observer_.reset(); }
void Sym__scnPos__use(Sym& s, const Eigen::Matrix<double, 2, 1>& v, Eigen::Matrix<double, 2, 1>& d)
{
    s.setupSystem();
    s.systemFunctionPosition_(v, d);
}
void Sym__scnPos__expect(Sym& s, const StateVector<2>& v, StateVector<2>& d)
{
    s.xCached_(2) = v(0);
    s.xCached_(3) = v(1);
    s.systemSymplectic_->computePdot(s.xCached_, v, d);
}
void Sym__scnVel__use(Sym& s, const Eigen::Matrix<double, 2, 1>& x, Eigen::Matrix<double, 2, 1>& d)
{
    s.setupSystem();
    s.systemFunctionVelocity_(x, d);
}
void Sym__scnVel__expect(Sym& s, const StateVector<2>& x, StateVector<2>& d)
{
    s.xCached_(0) = x(0);
    s.xCached_(1) = x(1);
    s.systemSymplectic_->computeVdot(s.xCached_, x, d);
}
}}
