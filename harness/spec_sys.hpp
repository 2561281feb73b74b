#pragma once
#include "spec.hpp"
namespace spec {
// ------------------------------------------------------------------ numerical linearisation
namespace C12 {
using namespace ct::core;
using X = StateVector<NX>;
using U = ControlVector<NU>;
using Lin = DynamicsLinearizerNumDiff<NX, NU, double, double>;
using DLin = DynamicsLinearizerNumDiff<NX, NU, double, int>;
using SL = SystemLinearizer<4, 2>;
using DSL = DiscreteSystemLinearizer<NX, NU>;
using ND = DerivativesNumDiff<NX, NU>;
using LS = LinearSystem<NX, NU>;
using DLS = DiscreteLinearSystem<NX, NU>;
using LTI = LTISystem<NX, NU>;

double step(double eps, double v) { return eps * std::max(std::abs(v), 1.0); }
template <class L, class T>
void jacX(L& s, const X& x, const U& u, T t)
{
    for (size_t i = 0; i < NX; i++)
    {
        double h = step(s.eps_, x(i));
        X xp = x, xm = x, fp, fm;
        xp(i) += h;
        s.dynamics_fct_(xp, t, u, fp);
        if (s.doubleSidedDerivative_)
        {
            xm(i) -= h;
            s.dynamics_fct_(xm, t, u, fm);
            s.dFdx_.col(i) = (fp - fm) / (2 * h);
        }
        else
        {
            s.dynamics_fct_(xm, t, u, fm);
            s.dFdx_.col(i) = (fp - fm) / h;
        }
    }
}
template <class L, class T>
void jacU(L& s, const X& x, const U& u, T t)
{
    for (size_t i = 0; i < NU; i++)
    {
        double h = step(s.eps_, u(i));
        U up = u, um = u;
        X fp, fm;
        up(i) += h;
        s.dynamics_fct_(x, t, up, fp);
        if (s.doubleSidedDerivative_)
        {
            um(i) -= h;
            s.dynamics_fct_(x, t, um, fm);
            s.dFdu_.col(i) = (fp - fm) / (2 * h);
        }
        else
        {
            s.dynamics_fct_(x, t, um, fm);
            s.dFdu_.col(i) = (fp - fm) / h;
        }
    }
}
const StateMatrix<NX>& Lin__getDerivativeState(Lin& s, const X& x, const U& u, const double t)
{
    jacX(s, x, u, t);
    return s.dFdx_;
}
const StateControlMatrix<NX, NU>& Lin__getDerivativeControl(Lin& s, const X& x, const U& u, const double t)
{
    jacU(s, x, u, t);
    return s.dFdu_;
}
const StateMatrix<NX>& DLin__getDerivativeState__d(DLin& s, const X& x, const U& u, const int t)
{
    jacX(s, x, u, t);
    return s.dFdx_;
}
const StateControlMatrix<NX, NU>& DLin__getDerivativeControl__d(DLin& s, const X& x, const U& u, const int t)
{
    jacU(s, x, u, t);
    return s.dFdu_;
}
void Lin__ctor__copy(Lin& s, const Lin& o)
{
    s.dynamics_fct_ = o.dynamics_fct_;
    s.doubleSidedDerivative_ = o.doubleSidedDerivative_;
    s.dFdx_ = o.dFdx_;
    s.dFdu_ = o.dFdu_;
    s.eps_ = o.eps_;
}
void Lin__ctor__f(Lin& s, Lin::dynamics_fct_t f, bool two)
{
    s.dynamics_fct_ = f;
    s.doubleSidedDerivative_ = two;
    s.eps_ = sqrt(Eigen::NumTraits<double>::epsilon());
}
const StateMatrix<4>& SL__getDerivativeState(SL& s, const StateVector<4>& x, const ControlVector<2>& u, const double t)
{
    s.dFdx_ = s.linearizer_.getDerivativeState(x, u, t);
    if (s.isSecondOrderSystem_)
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 4; j++)
                s.dFdx_(i, j) = (j == i + 2) ? 1.0 : 0.0;
    return s.dFdx_;
}
const StateControlMatrix<4, 2>& SL__getDerivativeControl(SL& s, const StateVector<4>& x, const ControlVector<2>& u, const double t)
{
    s.dFdu_ = s.linearizer_.getDerivativeControl(x, u, t);
    if (s.isSecondOrderSystem_)
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 2; j++)
                s.dFdu_(i, j) = 0;
    return s.dFdu_;
}
const StateMatrix<NX>& DSL__getDerivativeState__dsl(DSL& s, const X& x, const U& u, const int n)
{
    s.dFdx_ = s.linearizer_.getDerivativeState(x, u, n);
    return s.dFdx_;
}
const StateControlMatrix<NX, NU>& DSL__getDerivativeControl__dsl(DSL& s, const X& x, const U& u, const int n)
{
    s.dFdu_ = s.linearizer_.getDerivativeControl(x, u, n);
    return s.dFdu_;
}
void DSL__getAandB(DSL& s, const X& x, const U& u, const X& xn, const int n, size_t k, StateMatrix<NX>& A, StateControlMatrix<NX, NU>& B)
{
    A = s.linearizer_.getDerivativeState(x, u, n);
    B = s.linearizer_.getDerivativeControl(x, u, n);
    s.dFdx_ = A;
    s.dFdu_ = B;
}
Eigen::Matrix<double, NU, 1> ND__forwardZero(ND& s, const Eigen::VectorXd& x) { return s.f_(x); }
Eigen::Matrix<double, NU, NX> ND__jacobian(ND& s, const Eigen::VectorXd& x)
{
    assume(x.rows() == NX);
    Eigen::Matrix<double, NU, NX> J;
    Eigen::Matrix<double, NX, 1> x0 = x;
    for (int i = 0; i < (int)NX; i++)
    {
        double h = step(s.eps_, x0(i));
        Eigen::Matrix<double, NX, 1> xp = x0, xm = x0;
        xp(i) += h;
        if (s.doubleSidedDerivative_)
        {
            xm(i) -= h;
            J.col(i) = (s.f_(xp) - s.f_(xm)) / (2 * h);
        }
        else
            J.col(i) = (s.f_(xp) - s.f_(xm)) / h;
    }
    return J;
}
// a linear system is A x + B u with its own derivatives
void LS__computeControlledDynamics(LS& s, const X& x, const double& t, const U& u, X& dx)
{
    StateMatrix<NX> A = s.getDerivativeState(x, u, t);
    StateControlMatrix<NX, NU> B = s.getDerivativeControl(x, u, t);
    dx = A * x + B * u;
}
void LS__getDerivatives(LS& s, StateMatrix<NX>& A, StateControlMatrix<NX, NU>& B, const X& x, const U& u, const double t)
{
    A = s.getDerivativeState(x, u, t);
    B = s.getDerivativeControl(x, u, t);
}
void DLS__propagateControlledDynamics__dls(DLS& s, const X& x, const int n, const U& u, X& xn)
{
    StateMatrix<NX> A;
    StateControlMatrix<NX, NU> B;
    s.getAandB(x, u, x, n, 1, A, B);
    xn = A * x + B * u;
}
void DLS__getAandB__dls(DLS& s, const X& x, const U& u, const int n, StateMatrix<NX>& A, StateControlMatrix<NX, NU>& B)
{
    s.getAandB(x, u, x, n, 1, A, B);
}
const StateMatrix<NX>& LTI__getDerivativeState__lti(LTI& s, const X& x, const U& u, const double t) { return s.A_; }
const StateControlMatrix<NX, NU>& LTI__getDerivativeControl__lti(LTI& s, const X& x, const U& u, const double t) { return s.B_; }
void LTI__computeControlledDynamics__lti(LTI& s, const X& x, const double& t, const U& u, X& dx) { dx = s.A_ * x + s.B_ * u; }
void LTI__computeOutput(LTI& s, const X& x, const double& t, const U& u, X& y) { y = s.C_ * x + s.D_ * u; }
}
// ------------------------------------------------------------------ controllers and controlled systems
namespace C13 {
using namespace ct::core;
using X = StateVector<NX>;
using U = ControlVector<NU>;
using K = FeedbackMatrix<NX, NU>;
using SF = StateFeedbackController<NX, NU>;
using CC = ConstantController<NX, NU>;
using CSF = ConstantStateFeedbackController<NX, NU>;
using PID = PIDController<double>;
using SO = tpl::SecondOrderSystem<double>;
using CS = ControlledSystem<NX, NU>;
using DCS = DiscreteControlledSystem<NX, NU>;
using SYM = SymplecticSystem<2, 2, NU>;

void SF__computeControl__t(SF& s, const X& x, const double& t, U& u)
{
    U uff = s.uff_.eval(t);
    K k = s.K_.eval(t);
    X xr = s.x_ref_.eval(t);
    u = uff + k * (x - xr);
}
void SF__computeControl__n(SF& s, const X& x, const int n, U& u)
{
    u = s.uff_.data_[n] + s.K_.data_[n] * (x - s.x_ref_.data_[n]);
}
void SF__update(SF& s, const DiscreteArray<X>& x, const DiscreteArray<U>& uff, const DiscreteArray<K>& k, const tpl::TimeArray<double>& t)
{
    assume(t.size() > 0);
    if (k.size() != t.size() - 1 || uff.size() != t.size() - 1 || x.size() != t.size())
        throw std::runtime_error("");
    tpl::TimeArray<double> ts = t;
    ts.resize(t.size() - 1);
    s.x_ref_.data_ = x;
    s.x_ref_.time_ = t;
    s.uff_.data_ = uff;
    s.uff_.time_ = ts;
    s.K_.data_ = k;
    s.K_.time_ = ts;
}
const tpl::TimeArray<double>& SF__time(SF& s) { return s.x_ref_.time_; }
const DiscreteArray<X>& SF__x_ref(SF& s) { return s.x_ref_.data_; }
const DiscreteArray<U>& SF__uff(SF& s) { return s.uff_.data_; }
const DiscreteArray<K>& SF__K(SF& s) { return s.K_.data_; }
void SF__extractControlTrajectory(SF& s, const StateTrajectory<NX>& x, ControlTrajectory<NU>& u)
{
    assume(x.data_.size() > 0);
    if (x.data_.size() != x.time_.size())
        throw std::runtime_error("");
    u.data_.resize(x.data_.size() - 1);
    u.time_.resize(x.data_.size() - 1);
    for (size_t i = 0; i < x.data_.size() - 1; i++)
    {
        u.data_[i] = s.uff_.data_[i] + s.K_.data_[i] * (x.data_[i] - s.x_ref_.data_[i]);
        u.time_[i] = x.time_[i];
    }
}
void SF__ctor__copy(SF& s, const SF& o)
{
    s.x_ref_.time_ = o.x_ref_.time_;
    s.x_ref_.data_ = o.x_ref_.data_;
    s.x_ref_.interp_.type_ = o.x_ref_.interp_.type_;
    s.x_ref_.interp_.index_ = 0;
    s.uff_.time_ = o.uff_.time_;
    s.uff_.data_ = o.uff_.data_;
    s.uff_.interp_.type_ = o.uff_.interp_.type_;
    s.uff_.interp_.index_ = 0;
    s.K_.time_ = o.K_.time_;
    s.K_.data_ = o.K_.data_;
    s.K_.interp_.type_ = o.K_.interp_.type_;
    s.K_.interp_.index_ = 0;
}
void SF__ctor__arr(SF& s, const StateVectorArray<NX>& x, const ControlVectorArray<NU>& uff, const FeedbackArray<NX, NU>& k, const double dt,
    const double t0, const InterpolationType& type)
{
    assume(x.size() >= 2 && uff.size() >= 2 && k.size() >= 2);
    s.x_ref_.data_ = x;
    s.x_ref_.time_.resize(x.size());
    for (size_t i = 0; i < x.size(); i++)
        s.x_ref_.time_[i] = t0 + i * dt;
    s.x_ref_.interp_.type_ = type;
    s.x_ref_.interp_.index_ = 0;
    s.uff_.data_ = uff;
    s.uff_.time_.resize(uff.size());
    for (size_t i = 0; i < uff.size(); i++)
        s.uff_.time_[i] = t0 + i * dt;
    s.uff_.interp_.type_ = type;
    s.uff_.interp_.index_ = 0;
    s.K_.data_ = k;
    s.K_.time_.resize(k.size());
    for (size_t i = 0; i < k.size(); i++)
        s.K_.time_[i] = t0 + i * dt;
    s.K_.interp_.type_ = type;
    s.K_.interp_.index_ = 0;
}
void CC__computeControl__ct(CC& s, const X& x, const double& t, U& u) { u = s.u_; }
void CC__computeControl__cn(CC& s, const X& x, const int n, U& u) { u = s.u_; }
void CC__setControl(CC& s, const U& u) { s.u_ = u; }
const U& CC__getControl(CC& s) { return s.u_; }
ControlMatrix<NU> CC__getDerivativeU0(CC& s, const X& x, const double t) { return ControlMatrix<NU>::Identity(); }
void CC__ctor__def(CC& s) { s.u_.setZero(); }
void CC__ctor__u(CC& s, U& u) { s.u_ = u; }
void CC__ctor__copy(CC& s, const CC& o) { s.u_ = o.u_; }
void CSF__computeControl__csf(CSF& s, const X& x, const double& t, U& u) { u = s.u_ff_ + s.K_ * (x - s.x_ref_); }
void CSF__updateControlLaw(CSF& s, const U& u, const X& x, const K& k)
{
    s.u_ff_ = u;
    s.x_ref_ = x;
    s.K_ = k;
}
void CSF__ctor__copy(CSF& s, const CSF& o)
{
    s.u_ff_ = o.u_ff_;
    s.x_ref_ = o.x_ref_;
    s.K_ = o.K_;
}
double clampI(PID& s, double x)
{
    s.I_ = s.I_ + s.parameters_.k_i * (s.setpoint_.stateDesired_ - x) * s.parameters_.dt;
    if (s.I_ > s.parameters_.Imax)
        s.I_ = s.parameters_.Imax;
    else if (s.I_ < -s.parameters_.Imax)
        s.I_ = -s.parameters_.Imax;
    return s.I_;
}
double sat(PID& s, double u)
{
    if (u > s.parameters_.uMax)
        return s.parameters_.uMax;
    if (u < s.parameters_.uMin)
        return s.parameters_.uMin;
    return u;
}
double PID__computeControl__p(PID& s, const double& x, const double& t)
{
    assume(s.parameters_.Imax >= 0 && s.parameters_.uMax >= s.parameters_.uMin);
    double I = clampI(s, x);
    double u = s.parameters_.k_p * (s.setpoint_.stateDesired_ - x) + I +
               s.parameters_.k_d * (s.setpoint_.stateDerivativeDesired_ - (x - s.statePrevious_) / s.parameters_.dt);
    s.statePrevious_ = x;
    return sat(s, u);
}
double PID__computeControl__pd(PID& s, const double& x, const double& dx, const double& t)
{
    assume(s.parameters_.Imax >= 0 && s.parameters_.uMax >= s.parameters_.uMin);
    double I = clampI(s, x);
    double u = s.parameters_.k_p * (s.setpoint_.stateDesired_ - x) + I + s.parameters_.k_d * (s.setpoint_.stateDerivativeDesired_ - dx);
    s.statePrevious_ = x;
    return sat(s, u);
}
void PID__reset(PID& s)
{
    s.statePrevious_ = 0;
    s.I_ = 0;
}
void PID__setInitialState(PID& s, const double& x) { s.statePrevious_ = x; }
void PID__setDesiredState__1(PID& s, const double& x) { s.setpoint_.stateDesired_ = x; }
void PID__setDesiredState__2(PID& s, const double& x, const double& dx)
{
    s.setpoint_.stateDesired_ = x;
    s.setpoint_.stateDerivativeDesired_ = dx;
}
void PID__changeParameters(PID& s, const PID::parameters_t& p) { s.parameters_ = p; }
void PID__ctor__copy(PID& s, const PID& o)
{
    s.statePrevious_ = o.statePrevious_;
    s.I_ = o.I_;
    s.parameters_ = o.parameters_;
    s.setpoint_ = o.setpoint_;
}
void Step__computeControl__step(StepInputController& s, const StateVector<1>& x, const double& t, ControlVector<1>& u)
{
    u(0) = t >= s.parameters_.t_step ? s.parameters_.gain : 0.0;
}
// closed loop = controller evaluated at (x,t), zero input without a controller
void CS__computeDynamics(CS& s, const X& x, const double& t, X& dx)
{
    if (s.controller_)
        s.controller_->computeControl(x, t, s.controlAction_);
    else
        s.controlAction_ = U::Zero();
    s.computeControlledDynamics(x, t, s.controlAction_, dx);
}
U CS__getLastControlAction(CS& s) { return s.controlAction_; }
void DCS__propagateDynamics(DCS& s, const X& x, const int n, X& xn)
{
    U u = U::Zero();
    if (s.controller_)
        s.controller_->computeControl(x, n, u);
    s.propagateControlledDynamics(x, n, u, xn);
}
void SYM__computeControlledDynamics__sym(SYM& s, const StateVector<4>& x, const double& t, const U& u, StateVector<4>& dx)
{
    StateVector<2> p = x.head<2>(), v = x.tail<2>(), pd, vd;
    s.computePdot(x, v, u, pd);
    s.computeVdot(x, p, u, vd);
    dx(0) = pd(0);
    dx(1) = pd(1);
    dx(2) = vd(0);
    dx(3) = vd(1);
}
void SO__computeControlledDynamics__so(SO& s, const StateVector<2>& x, const double& t, const ControlVector<1>& u, StateVector<2>& dx)
{
    dx(0) = x(1);
    dx(1) = s.g_dc_ * s.w_n_square_ * u(0) - 2 * s.zeta_ * s.w_n_ * x(1) - s.w_n_square_ * x(0);
}
void SO__setDynamics(SO& s, double w, double z, double g)
{
    s.w_n_ = w;
    s.w_n_square_ = w * w;
    s.zeta_ = z;
    s.g_dc_ = g;
}
void SO__ctor__w(SO& s, double w, double z, double g, std::shared_ptr<Controller<2, 1>> c)
{
    s.w_n_ = w;
    s.w_n_square_ = w * w;
    s.zeta_ = z;
    s.g_dc_ = g;
    s.controller_ = c;
    s.type_ = SECOND_ORDER;
}
void SO__ctor__kmd(SO& s, double k, double m, double d, double g, std::shared_ptr<Controller<2, 1>> c)
{
    assume(k > 0 && m > 0);
    s.w_n_ = sqrt(k / m);
    s.w_n_square_ = sqrt(k / m) * sqrt(k / m);
    s.zeta_ = d / (2 * sqrt(m * k));
    s.g_dc_ = g;
    s.controller_ = c;
}
bool SO__checkParameters(SO& s) { return s.zeta_ >= 0 && s.w_n_ >= 0 && s.g_dc_ > 0; }
}
}
