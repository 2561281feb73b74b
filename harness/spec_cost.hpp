// Cost terms, activations and cost functions.
#pragma once
#include "spec.hpp"
namespace spec {
using X = ct::core::StateVector<NX>;
using U = ct::core::ControlVector<NU>;
using VX_ = Eigen::Matrix<double, NX, 1>;
using VU_ = Eigen::Matrix<double, NU, 1>;
using MX = Eigen::Matrix<double, NX, NX>;
using MU = Eigen::Matrix<double, NU, NU>;
using MUX = Eigen::Matrix<double, NU, NX>;
using TB = ct::optcon::TermBase<NX, NU>;
using TL = ct::optcon::TermLinear<NX, NU>;
using TM = ct::optcon::TermMixed<NX, NU>;
using TQ = ct::optcon::TermQuadratic<NX, NU>;
using TP = ct::optcon::TermQuadMult<NX, NU>;
using TT = ct::optcon::TermQuadTracking<NX, NU>;
using TS = ct::optcon::TermSmoothAbs<NX, NU>;
using CB = ct::optcon::CostFunction<NX, NU>;
using CQ = ct::optcon::CostFunctionQuadratic<NX, NU>;
using CS = ct::optcon::CostFunctionQuadraticSimple<NX, NU>;
using CA = ct::optcon::CostFunctionAnalytical<NX, NU>;
using Act = ct::core::tpl::ActivationBase<double>;
using AB = ct::core::tpl::BarrierActivation<double>;
using AL = ct::core::tpl::LinearActivation<double>;
using AP = ct::core::tpl::PeriodicActivation<double>;
using AS = ct::core::tpl::SingleActivation<double>;
using AG = ct::core::tpl::RBFGaussActivation<double>;
using ptree = boost::property_tree::ptree;

namespace C05 {
// ---- linear: a'x + b'u + c
double TL__evaluate(TL& s, const VX_& x, const VU_& u, const double& t)
{
    double y = s.c_;
    for (int i = 0; i < NX; i++)
        y += s.a_(i) * x(i);
    for (int i = 0; i < NU; i++)
        y += s.b_(i) * u(i);
    return y;
}
X TL__stateDerivative(TL& s, const X& x, const U& u, const double& t) { return s.a_; }
MX TL__stateSecondDerivative(TL& s, const X& x, const U& u, const double& t) { return MX::Zero(); }
U TL__controlDerivative(TL& s, const X& x, const U& u, const double& t) { return s.b_; }
MU TL__controlSecondDerivative(TL& s, const X& x, const U& u, const double& t) { return MU::Zero(); }
MUX TL__stateControlDerivative(TL& s, const X& x, const U& u, const double& t) { return MUX::Zero(); }
void TL__ctor(TL& s, const X a, U b, const double c)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.a_ = a;
    s.b_ = b;
    s.c_ = c;
}
void TL__ctor__def(TL& s)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.a_ = X::Zero();
    s.b_ = U::Zero();
    s.c_ = 0;
}
void TL__ctor__copy(TL& s, const TL& o)
{
    s.name_ = o.name_;
    s.c_i_ = o.c_i_;
    s.a_ = o.a_;
    s.b_ = o.b_;
    s.c_ = o.c_;
}

// ---- mixed: (u - ur)' P (x - xr)
double TM__evaluate(TM& s, const VX_& x, const VU_& u, const double& t)
{
    double y = 0;
    for (int i = 0; i < NU; i++)
        for (int j = 0; j < NX; j++)
            y += (u(i) - s.u_ref_(i)) * s.P_(i, j) * (x(j) - s.x_ref_(j));
    return y;
}
X TM__stateDerivative(TM& s, const X& x, const U& u, const double& t) { return s.P_.transpose() * (u - s.u_ref_); }
MX TM__stateSecondDerivative(TM& s, const X& x, const U& u, const double& t) { return MX::Zero(); }
U TM__controlDerivative(TM& s, const X& x, const U& u, const double& t) { return s.P_ * (x - s.x_ref_); }
MU TM__controlSecondDerivative(TM& s, const X& x, const U& u, const double& t) { return MU::Zero(); }
MUX TM__stateControlDerivative(TM& s, const X& x, const U& u, const double& t) { return s.P_; }
void TM__ctor__P(TM& s, const MUX& P)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.P_ = P;
    s.x_ref_ = X::Zero();
    s.u_ref_ = U::Zero();
}
void TM__ctor__def(TM& s)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.P_ = MUX::Zero();
    s.x_ref_ = X::Zero();
    s.u_ref_ = U::Zero();
}
void TM__ctor__ref(TM& s, const MUX& P, const X& xr, U& ur)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.P_ = P;
    s.x_ref_ = xr;
    s.u_ref_ = ur;
}
void TM__ctor__copy(TM& s, const TM& o)
{
    s.name_ = o.name_;
    s.c_i_ = o.c_i_;
    s.P_ = o.P_;
    s.x_ref_ = o.x_ref_;
    s.u_ref_ = o.u_ref_;
}
void TM__setWeights(TM& s, const MUX& P) { s.P_ = P; }
void TM__setStateAndControlReference(TM& s, const X& xr, const U& ur)
{
    s.x_ref_ = xr;
    s.u_ref_ = ur;
}
void TM__updateReferenceState(TM& s, const VX_& xr) { s.x_ref_ = xr; }

// ---- quadratic: (x - xr)' Q (x - xr) + (u - ur)' R (u - ur)
double TQ__evaluate(TQ& s, const VX_& x, const VU_& u, const double& t)
{
    VX_ e = x - s.x_ref_;
    VU_ f = u - s.u_ref_;
    return e.dot(s.Q_ * e) + f.dot(s.R_ * f);
}
X TQ__stateDerivative(TQ& s, const X& x, const U& u, const double& t) { return (s.Q_ + s.Q_.transpose()) * (x - s.x_ref_); }
MX TQ__stateSecondDerivative(TQ& s, const X& x, const U& u, const double& t) { return s.Q_ + s.Q_.transpose(); }
U TQ__controlDerivative(TQ& s, const X& x, const U& u, const double& t) { return (s.R_ + s.R_.transpose()) * (u - s.u_ref_); }
MU TQ__controlSecondDerivative(TQ& s, const X& x, const U& u, const double& t) { return s.R_ + s.R_.transpose(); }
MUX TQ__stateControlDerivative(TQ& s, const X& x, const U& u, const double& t) { return MUX::Zero(); }
void TQ__ctor__QR(TQ& s, const MX& Q, const MU& R)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.Q_ = Q;
    s.R_ = R;
    s.x_ref_ = X::Zero();
    s.u_ref_ = U::Zero();
}
void TQ__ctor__ref(TQ& s, const MX& Q, const MU& R, const X& xr, const U& ur)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.Q_ = Q;
    s.R_ = R;
    s.x_ref_ = xr;
    s.u_ref_ = ur;
}
void TQ__ctor__copy(TQ& s, const TQ& o)
{
    s.name_ = o.name_;
    s.c_i_ = o.c_i_;
    s.Q_ = o.Q_;
    s.R_ = o.R_;
    s.x_ref_ = o.x_ref_;
    s.u_ref_ = o.u_ref_;
}
void TQ__setWeights(TQ& s, const MX& Q, const MU& R)
{
    s.Q_ = Q;
    s.R_ = R;
}
MX TQ__getStateWeight(TQ& s) { return s.Q_; }
MU TQ__getControlWeight(TQ& s) { return s.R_; }
void TQ__setStateAndControlReference(TQ& s, const X& xr, const U& ur)
{
    s.x_ref_ = xr;
    s.u_ref_ = ur;
}
void TQ__updateReferenceState(TQ& s, const VX_& xr) { s.x_ref_ = xr; }
void TQ__updateReferenceControl(TQ& s, const VU_& ur) { s.u_ref_ = ur; }
VX_ TQ__getReferenceState(TQ& s) { return s.x_ref_; }

// ---- product: ((x - xr)' Q (x - xr)) ((u - ur)' R (u - ur))
double TP__evaluate(TP& s, const VX_& x, const VU_& u, const double& t)
{
    VX_ e = x - s.x_ref_;
    VU_ f = u - s.u_ref_;
    return e.dot(s.Q_ * e) * f.dot(s.R_ * f);
}
X TP__stateDerivative(TP& s, const X& x, const U& u, const double& t)
{
    VU_ f = u - s.u_ref_;
    return f.dot(s.R_ * f) * ((s.Q_ + s.Q_.transpose()) * (x - s.x_ref_));
}
MX TP__stateSecondDerivative(TP& s, const X& x, const U& u, const double& t)
{
    VU_ f = u - s.u_ref_;
    return f.dot(s.R_ * f) * (s.Q_ + s.Q_.transpose());
}
U TP__controlDerivative(TP& s, const X& x, const U& u, const double& t)
{
    VX_ e = x - s.x_ref_;
    return e.dot(s.Q_ * e) * ((s.R_ + s.R_.transpose()) * (u - s.u_ref_));
}
MU TP__controlSecondDerivative(TP& s, const X& x, const U& u, const double& t)
{
    VX_ e = x - s.x_ref_;
    return e.dot(s.Q_ * e) * (s.R_ + s.R_.transpose());
}
MUX TP__stateControlDerivative(TP& s, const X& x, const U& u, const double& t)
{
    VX_ gx = (s.Q_ + s.Q_.transpose()) * (x - s.x_ref_);
    VU_ gu = (s.R_ + s.R_.transpose()) * (u - s.u_ref_);
    MUX r;
    for (int i = 0; i < NU; i++)
        for (int j = 0; j < NX; j++)
            r(i, j) = gu(i) * gx(j);
    return r;
}
void TP__ctor__QR(TP& s, const MX& Q, const MU& R)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.Q_ = Q;
    s.R_ = R;
    s.x_ref_ = X::Zero();
    s.u_ref_ = U::Zero();
}
void TP__ctor__def(TP& s)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.Q_ = MX::Identity();
    s.R_ = MU::Identity();
    s.x_ref_ = X::Zero();
    s.u_ref_ = U::Zero();
}
void TP__ctor__ref(TP& s, const MX& Q, const MU& R, const X& xr, U& ur)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.Q_ = Q;
    s.R_ = R;
    s.x_ref_ = xr;
    s.u_ref_ = ur;
}
void TP__ctor__copy(TP& s, const TP& o)
{
    s.name_ = o.name_;
    s.c_i_ = o.c_i_;
    s.Q_ = o.Q_;
    s.R_ = o.R_;
    s.x_ref_ = o.x_ref_;
    s.u_ref_ = o.u_ref_;
}
void TP__setWeights(TP& s, const MX& Q, const MU& R)
{
    s.Q_ = Q;
    s.R_ = R;
}
void TP__setStateAndControlReference(TP& s, const X& xr, U& ur)
{
    s.x_ref_ = xr;
    s.u_ref_ = ur;
}

// ---- tracking: deviation from reference trajectories at the time asked for
double TT__evaluate(TT& s, const VX_& x, const VU_& u, const double& t)
{
    VX_ e = x - s.x_traj_ref_.eval(t);
    VU_ f = u;
    if (s.trackControlTrajectory_)
        f = u - s.u_traj_ref_.eval(t);
    return e.dot(s.Q_ * e) + f.dot(s.R_ * f);
}
X TT__stateDerivative(TT& s, const X& x, const U& u, const double& t) { return (s.Q_ + s.Q_.transpose()) * (x - s.x_traj_ref_.eval(t)); }
MX TT__stateSecondDerivative(TT& s, const X& x, const U& u, const double& t) { return s.Q_ + s.Q_.transpose(); }
U TT__controlDerivative(TT& s, const X& x, const U& u, const double& t)
{
    if (!s.trackControlTrajectory_)
        return (s.R_ + s.R_.transpose()) * u;
    return (s.R_ + s.R_.transpose()) * (u - s.u_traj_ref_.eval(t));
}
MU TT__controlSecondDerivative(TT& s, const X& x, const U& u, const double& t) { return s.R_ + s.R_.transpose(); }
MUX TT__stateControlDerivative(TT& s, const X& x, const U& u, const double& t) { return MUX::Zero(); }
void TT__ctor__copy(TT& s, const TT& o)
{
    s.name_ = o.name_;
    s.c_i_ = o.c_i_;
    s.Q_ = o.Q_;
    s.R_ = o.R_;
    s.x_traj_ref_ = o.x_traj_ref_;
    s.u_traj_ref_ = o.u_traj_ref_;
    s.trackControlTrajectory_ = o.trackControlTrajectory_;
}
void TT__setWeights(TT& s, const MX& Q, const MU& R)
{
    s.Q_ = Q;
    s.R_ = R;
}
void TT__setStateAndControlReference(TT& s, const ct::core::StateTrajectory<NX>& x, const ct::core::ControlTrajectory<NU>& u)
{
    s.x_traj_ref_ = x;
    s.u_traj_ref_ = u;
}

// ---- smooth absolute value: sum a_i sqrt((x_i - xr_i)^2 + alpha^2) + sum b_i sqrt((u_i - ur_i)^2 + alpha^2)
double TS__evaluate(TS& s, const VX_& x, const VU_& u, const double& t)
{
    double y = 0;
    for (int i = 0; i < NX; i++)
        y += s.a_(i) * sqrt((x(i) - s.x_ref_(i)) * (x(i) - s.x_ref_(i)) + s.alphaSquared_);
    for (int i = 0; i < NU; i++)
        y += s.b_(i) * sqrt((u(i) - s.u_ref_(i)) * (u(i) - s.u_ref_(i)) + s.alphaSquared_);
    return y;
}
X TS__stateDerivative(TS& s, const X& x, const U& u, const double& t)
{
    X r;
    for (int i = 0; i < NX; i++)
        r(i) = s.a_(i) * (x(i) - s.x_ref_(i)) / sqrt((x(i) - s.x_ref_(i)) * (x(i) - s.x_ref_(i)) + s.alphaSquared_);
    return r;
}
MX TS__stateSecondDerivative(TS& s, const X& x, const U& u, const double& t)
{
    MX r = MX::Zero();
    for (int i = 0; i < NX; i++)
    {
        double q = (x(i) - s.x_ref_(i)) * (x(i) - s.x_ref_(i)) + s.alphaSquared_;
        r(i, i) = s.a_(i) * s.alphaSquared_ / (q * sqrt(q));
    }
    return r;
}
U TS__controlDerivative(TS& s, const X& x, const U& u, const double& t)
{
    U r;
    for (int i = 0; i < NU; i++)
        r(i) = s.b_(i) * (u(i) - s.u_ref_(i)) / sqrt((u(i) - s.u_ref_(i)) * (u(i) - s.u_ref_(i)) + s.alphaSquared_);
    return r;
}
MU TS__controlSecondDerivative(TS& s, const X& x, const U& u, const double& t)
{
    MU r = MU::Zero();
    for (int i = 0; i < NU; i++)
    {
        double q = (u(i) - s.u_ref_(i)) * (u(i) - s.u_ref_(i)) + s.alphaSquared_;
        r(i, i) = s.b_(i) * s.alphaSquared_ / (q * sqrt(q));
    }
    return r;
}
MUX TS__stateControlDerivative(TS& s, const X& x, const U& u, const double& t) { return MUX::Zero(); }
void TS__ctor(TS& s, const X a, const X xr, const U b, const U ur, const double alpha)
{
    s.c_i_ = std::shared_ptr<Act>(new Act());     // always active unless told otherwise
    s.a_ = a;
    s.x_ref_ = xr;
    s.b_ = b;
    s.u_ref_ = ur;
    s.alphaSquared_ = alpha * alpha;
}
void TS__ctor__copy(TS& s, const TS& o)
{
    s.name_ = o.name_;
    s.c_i_ = o.c_i_;
    s.a_ = o.a_;
    s.x_ref_ = o.x_ref_;
    s.b_ = o.b_;
    s.u_ref_ = o.u_ref_;
    s.alphaSquared_ = o.alphaSquared_;
}

// ---- time activations
bool Act__isActive(Act& s, const double t) { return true; }
double Act__computeActivation(Act& s, const double t) { return 1; }
bool AS__isActive(AS& s, const double t) { return s.t_on_ <= t && t < s.t_off_; }
double AS__computeActivation(AS& s, const double t) { return 1; }
bool AL__isActive(AL& s, const double t) { return s.t_on_ <= t && t < s.t_off_; }
double AL__computeActivation(AL& s, const double t) { return s.startVal_ + s.slope_ * (t - s.t_on_); }
bool AP__isActive(AP& s, const double t)
{
    if (t < s.period_offset_ || t >= s.t_end_)
        return false;
    double r = fmod(t - s.period_offset_, s.period_);
    return s.activation_offset_ <= r && r < s.activation_offset_ + s.active_percentage_ * s.period_;
}
double AP__computeActivation(AP& s, const double t) { return 1; }
double AB__computeActivation(AB& s, const double x)
{
    double y = 0;
    if (s.ub_active_)
        y += exp(s.alpha_ * (x - s.ub_));
    if (s.lb_active_)
        y += exp(s.alpha_ * (s.lb_ - x));
    return y;
}
double AB__firstOrderDerivative(AB& s, const double x)
{
    double y = 0;
    if (s.ub_active_)
        y += s.alpha_ * exp(s.alpha_ * (x - s.ub_));
    if (s.lb_active_)
        y -= s.alpha_ * exp(s.alpha_ * (s.lb_ - x));
    return y;
}
double AB__secondOrderDerivative(AB& s, const double x)
{
    double y = 0;
    if (s.ub_active_)
        y += s.alpha_ * s.alpha_ * exp(s.alpha_ * (x - s.ub_));
    if (s.lb_active_)
        y += s.alpha_ * s.alpha_ * exp(s.alpha_ * (s.lb_ - x));
    return y;
}
void AB__ctor(AB& s, const double& ub, const double& lb, const double& alpha)
{
    s.ub_active_ = s.lb_active_ = true;
    s.ub_ = ub;
    s.lb_ = lb;
    s.alpha_ = alpha;
}
void AB__setLowerBoundOnly(AB& s, const double& lb, const double& alpha)
{
    s.lb_active_ = true;
    s.ub_active_ = false;
    s.lb_ = lb;
    s.alpha_ = alpha;
}
void AB__setUpperBoundOnly(AB& s, const double& ub, const double& alpha)
{
    s.lb_active_ = false;
    s.ub_active_ = true;
    s.ub_ = ub;
    s.alpha_ = alpha;
}
// a Gaussian bell around mu, however it was set up
double AG__scn__use(double mu, double sigma, double t)
{
    AG g(mu, sigma);
    return g.computeActivation(t);
}
double AG__scn__expect(double mu, double sigma, double t)
{
    return exp(-(t - mu) * (t - mu) / (2 * sigma * sigma)) / sqrt(2 * M_PI * sigma * sigma);
}
void AS__loadConfigFile(AS& s, const std::string& file, const std::string& term, bool verbose)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.t_on_ = pt.get<double>(term + ".t_on");
    s.t_off_ = pt.get<double>(term + ".t_off");
}

void AL__loadConfigFile(AL& s, const std::string& file, const std::string& term, bool verbose)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.t_on_ = pt.get<double>(term + ".t_on");
    s.t_off_ = pt.get<double>(term + ".t_off");
    s.slope_ = pt.get<double>(term + ".slope");
    s.startVal_ = pt.get<double>(term + ".startVal");
}
void AP__loadConfigFile(AP& s, const std::string& file, const std::string& term, bool verbose)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.active_percentage_ = pt.get<double>(term + ".active_percentage");
    s.period_ = pt.get<double>(term + ".period");
    s.activation_offset_ = pt.get<double>(term + ".activation_offset");
    s.period_offset_ = pt.get<double>(term + ".period_offset");
    s.t_end_ = pt.get<double>(term + ".t_end");
    if (s.activation_offset_ + s.active_percentage_ * s.period_ > s.period_)
        throw 1;
}
void AP__ctor(AP& s, const double pct, const double period, const double aoff, const double poff)
{
    s.active_percentage_ = pct;
    s.period_ = period;
    s.activation_offset_ = aoff;
    s.period_offset_ = poff;
    s.t_end_ = std::numeric_limits<double>::max();
}
double AG__scnLoad__use(const std::string& file, const std::string& term, double t)
{
    AG g;
    g.loadConfigFile(file, term, false);
    return g.computeActivation(t);
}
double AG__scnLoad__expect(const std::string& file, const std::string& term, double t)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    double mu = pt.get<double>(term + ".mu"), sigma = pt.get<double>(term + ".sigma");
    return exp(-(t - mu) * (t - mu) / (2 * sigma * sigma)) / sqrt(2 * M_PI * sigma * sigma);
}
// ---- loading weights: entry (i,j) of <term>.weights.<name>, zero if absent, times its optional scaling
template <class M>
void ld(const std::string& file, const std::string& name, M& m, const std::string& term)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++)
            m(i, j) = pt.get<double>(term + ".weights." + name + ".scaling", 1) *
                      pt.get<double>(term + ".weights." + name + "." + "(" + std::to_string(i) + "," + std::to_string(j) + ")", 0.0);
}
void TL__loadConfigFile(TL& s, const std::string& file, const std::string& term, bool verbose)
{
    assume(term != "");
    ld(file, "a", s.a_, term);
    ld(file, "b", s.b_, term);
}
void TM__loadConfigFile(TM& s, const std::string& file, const std::string& term, bool verbose)
{
    assume(term != "");
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.name_ = pt.get<std::string>(term + ".name.", term);
    ld(file, "P", s.P_, term);
    ld(file, "x_des", s.x_ref_, term);
    ld(file, "u_des", s.u_ref_, term);
}
void TQ__loadConfigFile(TQ& s, const std::string& file, const std::string& term, bool verbose)
{
    assume(term != "");
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.name_ = pt.get<std::string>(term + ".name.", term);
    ld(file, "Q", s.Q_, term);
    ld(file, "R", s.R_, term);
    ld(file, "x_des", s.x_ref_, term);
    ld(file, "u_des", s.u_ref_, term);
}
void TP__loadConfigFile(TP& s, const std::string& file, const std::string& term, bool verbose)
{
    assume(term != "");
    ld(file, "Q", s.Q_, term);
    ld(file, "R", s.R_, term);
    ld(file, "x_des", s.x_ref_, term);
    ld(file, "u_des", s.u_ref_, term);
}
void TT__loadConfigFile(TT& s, const std::string& file, const std::string& term, bool verbose)
{
    assume(term != "");
    ld(file, "Q", s.Q_, term);
    ld(file, "R", s.R_, term);
}
void TS__loadConfigFile(TS& s, const std::string& file, const std::string& term, bool verbose)
{
    assume(term != "");
    ld(file, "a", s.a_, term);
    ld(file, "x_ref", s.x_ref_, term);
    ld(file, "b", s.b_, term);
    ld(file, "u_ref", s.u_ref_, term);
    ptree pt;
    boost::property_tree::read_info(file, pt);
    double alpha = pt.get<double>(term + ".weights.alpha");
    s.alphaSquared_ = alpha * alpha;
}
}

// ---- cost functions
namespace C06 {
void CB__ctor(CB& s)
{
    s.x_ = X::Zero();
    s.u_ = U::Zero();
    s.t_ = 0;
    s.t_shift_ = 0;
}
void CB__setCurrentStateAndControl(CB& s, const X& x, const U& u, const double& t)
{
    s.x_ = x;
    s.u_ = u;
    s.t_ = t + s.t_shift_;
}
void CB__getCurrentStateAndControl(CB& s, VX_& x, VU_& u, double& t)
{
    x = s.x_;
    u = s.u_;
    t = s.t_;
}
void CB__shiftTime(CB& s, const double t) { s.t_shift_ = t; }
void CB__ctor__copy(CB& s, const CB& o)
{
    s.x_ = o.x_;
    s.u_ = o.u_;
    s.t_ = o.t_;
    s.t_shift_ = o.t_shift_;
}
// a term counts as far as its activation is on, with the same weight for value and derivatives
#define SUM(LIST, WHAT, T0)                                       \
    T0;                                                           \
    for (size_t i = 0; i < s.LIST.size(); i++)                    \
        if (s.LIST[i]->isActiveAtTime(s.t_))                      \
            y += s.LIST[i]->computeActivation(s.t_) * s.LIST[i]->WHAT(s.x_, s.u_, s.t_); \
    return y;
double CA__evaluateIntermediate(CA& s) { SUM(intermediateCostAnalytical_, evaluate, double y = 0) }
X CA__stateDerivativeIntermediate(CA& s) { SUM(intermediateCostAnalytical_, stateDerivative, X y = X::Zero()) }
MX CA__stateSecondDerivativeIntermediate(CA& s) { SUM(intermediateCostAnalytical_, stateSecondDerivative, MX y = MX::Zero()) }
U CA__controlDerivativeIntermediate(CA& s) { SUM(intermediateCostAnalytical_, controlDerivative, U y = U::Zero()) }
MU CA__controlSecondDerivativeIntermediate(CA& s) { SUM(intermediateCostAnalytical_, controlSecondDerivative, MU y = MU::Zero()) }
MUX CA__stateControlDerivativeIntermediate(CA& s) { SUM(intermediateCostAnalytical_, stateControlDerivative, MUX y = MUX::Zero()) }
#define FIN(WHAT, T0)                                                     \
    T0;                                                                   \
    for (size_t i = 0; i < s.finalCostAnalytical_.size(); i++)            \
        y += s.finalCostAnalytical_[i]->WHAT(s.x_, s.u_, s.t_);           \
    return y;
double CA__evaluateTerminal(CA& s) { FIN(evaluate, double y = 0) }
X CA__stateDerivativeTerminal(CA& s) { FIN(stateDerivative, X y = X::Zero()) }
MX CA__stateSecondDerivativeTerminal(CA& s) { FIN(stateSecondDerivative, MX y = MX::Zero()) }
U CA__controlDerivativeTerminal(CA& s) { FIN(controlDerivative, U y = U::Zero()) }
MU CA__controlSecondDerivativeTerminal(CA& s) { FIN(controlSecondDerivative, MU y = MU::Zero()) }
MUX CA__stateControlDerivativeTerminal(CA& s) { FIN(stateControlDerivative, MUX y = MUX::Zero()) }
double TB__eval(TB& s, const VX_& x, const VU_& u, const double& t) { return s.c_i_->computeActivation(t) * s.evaluate(x, u, t); }
bool TB__isActiveAtTime(TB& s, double t) { return s.c_i_->isActive(t); }
double TB__computeActivation(TB& s, double t) { return s.c_i_->computeActivation(t); }
void TB__setTimeActivation(TB& s, std::shared_ptr<Act> a, bool verbose)
{
    assume(!verbose);
    s.c_i_ = a;
}
void CA__updateReferenceState(CA& s, const X& r)
{
    for (size_t i = 0; i < s.intermediateCostAnalytical_.size(); i++)
        s.intermediateCostAnalytical_[i]->updateReferenceState(r);
}
void CA__updateFinalState(CA& s, const X& r)
{
    for (size_t i = 0; i < s.finalCostAnalytical_.size(); i++)
        s.finalCostAnalytical_[i]->updateReferenceState(r);
}
void CA__updateReferenceControl(CA& s, const U& r)
{
    for (size_t i = 0; i < s.intermediateCostAnalytical_.size(); i++)
        s.intermediateCostAnalytical_[i]->updateReferenceControl(r);
}
size_t CA__addIntermediateTerm(CA& s, std::shared_ptr<TB> t, bool verbose)
{
    s.intermediateCostAnalytical_.push_back(t);
    return s.intermediateCostAnalytical_.size() - 1;
}
size_t CA__addFinalTerm(CA& s, std::shared_ptr<TB> t, bool verbose)
{
    s.finalCostAnalytical_.push_back(t);
    return s.finalCostAnalytical_.size() - 1;
}
std::shared_ptr<TB> CA__getIntermediateTermById(CA& s, const size_t i) { return s.intermediateCostAnalytical_[i]; }
std::shared_ptr<TB> CA__getFinalTermById(CA& s, const size_t i) { return s.finalCostAnalytical_[i]; }
std::shared_ptr<TB> CA__getIntermediateTermByName(CA& s, const std::string& n)
{
    for (size_t i = 0; i < s.intermediateCostAnalytical_.size(); i++)
        if (s.intermediateCostAnalytical_[i]->getName() == n)
            return s.intermediateCostAnalytical_[i];
    throw 1;
}
std::shared_ptr<TB> CA__getFinalTermByName(CA& s, const std::string& n)
{
    for (size_t i = 0; i < s.finalCostAnalytical_.size(); i++)
        if (s.finalCostAnalytical_[i]->getName() == n)
            return s.finalCostAnalytical_[i];
    throw 1;
}
// a copy has terms of its own
void CA__ctor__copy(CA& s, const CA& o)
{
    s.x_ = o.x_;
    s.u_ = o.u_;
    s.t_ = o.t_;
    s.t_shift_ = o.t_shift_;
    s.eps_ = o.eps_;
    s.doubleSidedDerivative_ = o.doubleSidedDerivative_;
    s.intermediateCostAnalytical_.resize(o.intermediateCostAnalytical_.size());
    for (size_t i = 0; i < o.intermediateCostAnalytical_.size(); i++)
        s.intermediateCostAnalytical_[i] = std::shared_ptr<TB>(o.intermediateCostAnalytical_[i]->clone());
    s.finalCostAnalytical_.resize(o.finalCostAnalytical_.size());
    for (size_t i = 0; i < o.finalCostAnalytical_.size(); i++)
        s.finalCostAnalytical_[i] = std::shared_ptr<TB>(o.finalCostAnalytical_[i]->clone());
}
// ---- 1/2 (x-xn)'Q(x-xn) + 1/2 (u-un)'R(u-un), terminal 1/2 (x-xf)'Qf(x-xf); symmetric weights for the derivatives
void CS__setCurrentStateAndControl(CS& s, const X& x, const U& u, const double& t)
{
    s.x_ = x;
    s.u_ = u;
    s.t_ = t + s.t_shift_;
    s.x_deviation_ = x - s.x_nominal_;
    s.u_deviation_ = u - s.u_nominal_;
}
double CS__evaluateIntermediate(CS& s)
{
    VX_ e = s.x_deviation_;
    VU_ f = s.u_deviation_;
    return 0.5 * e.dot(s.Q_ * e) + 0.5 * f.dot(s.R_ * f);
}
X CS__stateDerivativeIntermediate(CS& s) { return s.Q_ * s.x_deviation_; }
MX CS__stateSecondDerivativeIntermediate(CS& s) { return s.Q_; }
U CS__controlDerivativeIntermediate(CS& s) { return s.R_ * s.u_deviation_; }
MU CS__controlSecondDerivativeIntermediate(CS& s) { return s.R_; }
MUX CS__stateControlDerivativeIntermediate(CS& s) { return MUX::Zero(); }
double CS__evaluateTerminal(CS& s)
{
    VX_ e = s.x_ - s.x_final_;
    return 0.5 * e.dot(s.Q_final_ * e);
}
X CS__stateDerivativeTerminal(CS& s) { return s.Q_final_ * (s.x_ - s.x_final_); }
MX CS__stateSecondDerivativeTerminal(CS& s) { return s.Q_final_; }
void CS__updateReferenceState(CS& s, const X& r) { s.x_nominal_ = r; }
void CS__updateFinalState(CS& s, const X& r) { s.x_final_ = r; }
void CS__ctor__full(CS& s, const MX& Q, const MU& R, const X& xn, const U& un, const X& xf, const MX& Qf)
{
    s.t_shift_ = 0;
    s.x_ = X::Zero();
    s.u_ = U::Zero();
    s.t_ = 0;
    s.Q_ = Q;
    s.R_ = R;
    s.x_nominal_ = xn;
    s.u_nominal_ = un;
    s.x_final_ = xf;
    s.Q_final_ = Qf;
    s.x_deviation_ = X::Zero();
    s.u_deviation_ = U::Zero();
}
void CS__ctor__copy(CS& s, const CS& o)
{
    s.x_ = o.x_;
    s.u_ = o.u_;
    s.t_ = o.t_;
    s.t_shift_ = o.t_shift_;
    s.x_deviation_ = o.x_deviation_;
    s.x_nominal_ = o.x_nominal_;
    s.Q_ = o.Q_;
    s.u_deviation_ = o.u_deviation_;
    s.u_nominal_ = o.u_nominal_;
    s.R_ = o.R_;
    s.x_final_ = o.x_final_;
    s.Q_final_ = o.Q_final_;
}
}
}
