#pragma once
#include "spec.hpp"
// ------------------------------------------------------------------ direct multiple shooting: transcription
namespace spec { namespace C14 {
using namespace ct::optcon;
using X = ct::core::StateVector<NX>;
using U = ct::core::ControlVector<NU>;
using XArr = ct::core::StateVectorArray<NX>;
using UArr = ct::core::ControlVectorArray<NU>;
using Times = ct::core::tpl::TimeArray<double>;
using Ax = ct::core::StateMatrix<NX>;
using Bx = Eigen::Matrix<double, NX, NU>;
using VX = Eigen::VectorXd;
using VI = Eigen::VectorXi;
using Map = Eigen::Map<VX>;
using Grid = tpl::TimeGrid<double>;
using Lin = LinearSpliner<U>;
using Zoh = ZeroOrderHoldSpliner<U>;
using UVec = std::vector<U, Eigen::aligned_allocator<U>>;
using UMat = Eigen::Matrix<double, NU, NU>;
using W = OptVectorDms<NX, NU>;
using Ctrl = ControllerDms<NX, NU>;
using Ini = InitStateConstraint<NX, NU>;
using Con = ContinuityConstraint<NX, NU>;
using Shot = ShotContainer<NX, NU>;
using Dsc = ConstraintDiscretizer<NX, NU>;
using CC = ConstraintsContainerDms<NX, NU>;
using Prob = DmsProblem<NX, NU>;
using CF = CostEvaluatorFull<NX, NU>;
using CS = CostEvaluatorSimple<NX, NU>;
using Sen = SensitivityIntegratorCT<NX, NU>;
using Lcc = LinearConstraintContainer<NX, NU>;
constexpr size_t NW = NX + NU;  // one node: state, then control

// ---- time grid
void Grid__ctor(Grid& s, const size_t n, const double T)
{
    s.numberOfShots_ = n;
    s.timeHorizon_ = T;
    s.t_.resize(n + 1, 0.0);
    for (size_t i = 0; i <= n; i++)
        s.t_[i] = i * T / n;
}
void Grid__changeShotCount(Grid& s, const size_t n)
{
    s.numberOfShots_ = n;
    s.t_.clear();
    s.t_.resize(n + 1, 0.0);
    for (size_t i = 0; i <= n; i++)
        s.t_[i] = i * s.timeHorizon_ / n;
}
void Grid__changeTimeHorizon(Grid& s, const double T)
{
    given(s.t_.size(), s.numberOfShots_ + 1);
    s.timeHorizon_ = T;
    for (size_t i = 0; i <= s.numberOfShots_; i++)
        s.t_[i] = i * T / s.numberOfShots_;
}
void Grid__updateTimeGrid(Grid& s, const VX& h)
{
    s.t_[0] = 0.0;
    for (size_t i = 0; i < (size_t)h.size(); i++)
        s.t_[i + 1] = s.t_[i] + h(i);
}
double Grid__getShotStartTime(Grid& s, const size_t i) { return s.t_[i]; }
double Grid__getShotEndTime(Grid& s, const size_t i) { return s.t_[i + 1]; }
double Grid__getShotDuration(Grid& s, const size_t i) { return s.t_[i + 1] - s.t_[i]; }
double Grid__getTimeHorizon(Grid& s) { return s.timeHorizon_; }
double Grid__getOptimizedTimeHorizon(Grid& s) { return s.t_.back(); }

// ---- control between the nodes
void Zoh__computeSpline(Zoh& s, const UVec& p) { s.zOholds_ = p; }
void Lin__computeSpline(Lin& s, const UVec& p) { s.nodes_ = p; }
U Zoh__evalSpline(Zoh& s, const double t, const size_t i) { return s.zOholds_[i]; }
U Lin__evalSpline(Lin& s, const double t, const size_t i)
{
    if (i + 1 >= s.nodes_.size())
        return s.nodes_[i];
    const double a = s.timeGrid_->t_[i], b = s.timeGrid_->t_[i + 1], l = (t - a) / (b - a);
    return (1 - l) * s.nodes_[i] + l * s.nodes_[i + 1];
}
U Zoh__splineDerivative_t(Zoh& s, const double t, const size_t i) { return U::Zero(); }
U Lin__splineDerivative_t(Lin& s, const double t, const size_t i)
{
    return (s.nodes_[i + 1] - s.nodes_[i]) / (s.timeGrid_->t_[i + 1] - s.timeGrid_->t_[i]);
}
U Zoh__splineDerivative_h_i(Zoh& s, const double t, const size_t i) { return U::Zero(); }
U Lin__splineDerivative_h_i(Lin& s, const double t, const size_t i)
{
    const double h = s.timeGrid_->t_[i + 1] - s.timeGrid_->t_[i];
    return (s.nodes_[i] - s.nodes_[i + 1]) * (t - s.timeGrid_->t_[i]) / (h * h);
}
UMat Zoh__splineDerivative_q_i(Zoh& s, const double t, const size_t i) { return UMat::Identity(); }
UMat Zoh__splineDerivative_q_iplus1(Zoh& s, const double t, const size_t i) { return UMat::Zero(); }
UMat Lin__splineDerivative_q_i(Lin& s, const double t, const size_t i)
{
    const double a = s.timeGrid_->t_[i], b = s.timeGrid_->t_[i + 1];
    return UMat::Identity() * (1 - (t - a) / (b - a));
}
UMat Lin__splineDerivative_q_iplus1(Lin& s, const double t, const size_t i)
{
    const double a = s.timeGrid_->t_[i], b = s.timeGrid_->t_[i + 1];
    return UMat::Identity() * ((t - a) / (b - a));
}
void Ctrl__computeControl(Ctrl& s, const X& x, const double& t, U& u) { u = s.controlSpliner_->evalSpline(t, s.shotIdx_); }
UMat Ctrl__getDerivativeU0(Ctrl& s, const X& x, const double t) { return s.controlSpliner_->splineDerivative_q_i(t, s.shotIdx_); }
UMat Ctrl__getDerivativeUf(Ctrl& s, const X& x, const double t) { return s.controlSpliner_->splineDerivative_q_iplus1(t, s.shotIdx_); }

// ---- decision vector: node k holds its state at k*(nx+nu), followed by its control
size_t W__layoutState__use(const size_t n, const DmsSettings& st, const size_t k)
{
    assume(k <= st.N_);
    W w(n, st);
    return w.getStateIndex(k);
}
size_t W__layoutState__expect(const size_t n, const DmsSettings& st, const size_t k)
{
    assume(k <= st.N_);
    return k * NW;
}
size_t W__layoutControl__use(const size_t n, const DmsSettings& st, const size_t k)
{
    assume(k <= st.N_);
    W w(n, st);
    return w.getControlIndex(k);
}
size_t W__layoutControl__expect(const size_t n, const DmsSettings& st, const size_t k)
{
    assume(k <= st.N_);
    return k * NW + NX;
}
X W__getOptimizedState(W& s, const size_t k) { return s.x_.segment(s.getStateIndex(k), NX); }
U W__getOptimizedControl(W& s, const size_t k) { return s.x_.segment(s.getControlIndex(k), NU); }
const XArr& W__getOptimizedStates(W& s)
{
    given(s.stateSolution_.size(), s.numPairs_);
    for (size_t k = 0; k < s.numPairs_; k++)
        s.stateSolution_[k] = s.x_.segment(s.getStateIndex(k), NX);
    return s.stateSolution_;
}
const UArr& W__getOptimizedInputs(W& s)
{
    given(s.inputSolution_.size(), s.numPairs_);
    for (size_t k = 0; k < s.numPairs_; k++)
        s.inputSolution_[k] = s.x_.segment(s.getControlIndex(k), NU);
    return s.inputSolution_;
}
void W__changeInitialState(W& s, const X& x0) { s.x_.segment(s.getStateIndex(0), NX) = x0; }
void W__changeDesiredState(W& s, const X& xf) { s.x_.segment(s.getStateIndex(s.settings_.N_), NX) = xf; }
void W__setInitGuess__interp(W& s, const X& x0, const X& xf, const U& u0)
{
    for (size_t k = 0; k < s.numPairs_; k++)
    {
        const double l = double(k) / double(s.numPairs_ - 1);
        s.xInit_.segment(s.getStateIndex(k), NX) = (1 - l) * x0 + l * xf;
        s.xInit_.segment(s.getControlIndex(k), NU) = u0;
    }
}
void W__setInitGuess__traj(W& s, const XArr& x, const UArr& u)
{
    if (x.size() != s.numPairs_ || u.size() != s.numPairs_)
        throw 1;
    for (size_t k = 0; k < s.numPairs_; k++)
    {
        s.xInit_.segment(s.getStateIndex(k), NX) = x[k];
        s.xInit_.segment(s.getControlIndex(k), NU) = u[k];
    }
}

// ---- initial state: s_0 - x_0 = 0
void Ini__ctor(Ini& s, const X& x0, std::shared_ptr<W> w)
{
    s.w_ = w;
    s.x_0_ = x0;
    s.lb_.setZero();
    s.ub_.setZero();
}
void Ini__updateConstraint(Ini& s, const X& x0) { s.x_0_ = x0; }
VX Ini__eval(Ini& s) { return s.w_->getOptimizedState(0) - s.x_0_; }
VX Ini__evalSparseJacobian(Ini& s) { return VX::Ones(NX); }
size_t Ini__getNumNonZerosJacobian(Ini& s) { return NX; }
size_t Ini__getConstraintSize(Ini& s) { return NX; }
VX Ini__getLowerBound(Ini& s) { return s.lb_; }
VX Ini__getUpperBound(Ini& s) { return s.ub_; }
void Ini__genSparsityPattern(Ini& s, VI& r, VI& c)
{
    assume(r.size() == NX);
    assume(c.size() == NX);
    for (size_t i = 0; i < NX; i++)
    {
        r(i) = i;
        c(i) = s.w_->getStateIndex(0) + i;
    }
}

// ---- continuity: s_{k+1} - x(t_{k+1}; s_k, q) = 0
VX Con__eval(Con& s) { return s.w_->getOptimizedState(s.shotIndex_ + 1) - s.shotContainer_->stateSubsteps_.back(); }
size_t Con__getConstraintSize(Con& s) { return NX; }
VX Con__getLowerBound(Con& s) { return s.lb_; }
VX Con__getUpperBound(Con& s) { return s.ub_; }
size_t Con__getNumNonZerosJacobian(Con& s)
{
    if (s.settings_.splineType_ == DmsSettings::ZERO_ORDER_HOLD)
        return NX * NX + NX * NU + NX;
    if (s.settings_.splineType_ == DmsSettings::PIECEWISE_LINEAR)
        return NX * NX + NX * NU + NX + NX * NU;
    throw 1;
}
void Con__ctor(Con& s, std::shared_ptr<Shot> c, std::shared_ptr<W> w, size_t i, const DmsSettings st)
{
    s.shotContainer_ = c;
    s.w_ = w;
    s.shotIndex_ = i;
    s.lb_.setZero();
    s.ub_.setZero();
    if (st.splineType_ == DmsSettings::ZERO_ORDER_HOLD)
        s.jacLocal_.resize(NX * NX + NX * NU + NX);
    else if (st.splineType_ == DmsSettings::PIECEWISE_LINEAR)
        s.jacLocal_.resize(NX * NX + NX * NU + NX + NX * NU);
    else
        throw 1;
}
VX Con__evalSparseJacobian__zoh(Con& s)
{
    assume(s.settings_.splineType_ == DmsSettings::ZERO_ORDER_HOLD);
    size_t k = 0;
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NX; j++)
            s.jacLocal_(k++) = -s.shotContainer_->discreteA_(i, j);
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NU; j++)
            s.jacLocal_(k++) = -s.shotContainer_->discreteB_(i, j);
    for (size_t i = 0; i < NX; i++)
        s.jacLocal_(k++) = 1.0;
    s.count_local_ = k;
    return s.jacLocal_;
}
VX Con__evalSparseJacobian__lin(Con& s)
{
    assume(s.settings_.splineType_ == DmsSettings::PIECEWISE_LINEAR);
    size_t k = 0;
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NX; j++)
            s.jacLocal_(k++) = -s.shotContainer_->discreteA_(i, j);
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NU; j++)
            s.jacLocal_(k++) = -s.shotContainer_->discreteB_(i, j);
    for (size_t i = 0; i < NX; i++)
        s.jacLocal_(k++) = 1.0;
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NU; j++)
            s.jacLocal_(k++) = -s.shotContainer_->discreteBNext_(i, j);
    s.count_local_ = k;
    return s.jacLocal_;
}
void Con__genSparsityPattern(Con& s, VI& r, VI& c)
{
    const bool zoh = s.settings_.splineType_ == DmsSettings::ZERO_ORDER_HOLD;
    if (!zoh && s.settings_.splineType_ != DmsSettings::PIECEWISE_LINEAR)
        throw 1;
    size_t k = 0;
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NX; j++, k++)
        {
            r(k) = i;
            c(k) = s.w_->getStateIndex(s.shotIndex_) + j;
        }
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NU; j++, k++)
        {
            r(k) = i;
            c(k) = s.w_->getControlIndex(s.shotIndex_) + j;
        }
    for (size_t i = 0; i < NX; i++, k++)
    {
        r(k) = i;
        c(k) = s.w_->getStateIndex(s.shotIndex_ + 1) + i;
    }
    if (!zoh)
        for (size_t i = 0; i < NX; i++)
            for (size_t j = 0; j < NU; j++, k++)
            {
                r(k) = i;
                c(k) = s.w_->getControlIndex(s.shotIndex_ + 1) + j;
            }
}

// ---- integration of one shot: caches are filled once per update of the decision vector
void Shot__integrateShot(Shot& s)
{
    const size_t now = s.w_->updateCount_;
    if (s.integrationCount_ == now)
        return;
    s.integrationCount_ = now;
    X x = s.w_->getOptimizedState(s.shotNr_);
    s.integratorCT_->integrate(x, s.tStart_, s.nSteps_, s.settings_.dt_sim_, s.stateSubsteps_, s.timeSubsteps_);
}
void Shot__integrateCost(Shot& s)
{
    const size_t now = s.w_->updateCount_;
    if (s.costIntegrationCount_ == now)
        return;
    s.costIntegrationCount_ = now;
    s.integrateShot();
    double c = 0.0;
    s.integratorCT_->integrateCost(c, s.tStart_, s.nSteps_, s.settings_.dt_sim_);
    s.cost_ = c;
}
void Shot__integrateSensitivities(Shot& s)
{
    const size_t now = s.w_->updateCount_;
    if (s.sensIntegrationCount_ == now)
        return;
    s.sensIntegrationCount_ = now;
    s.integrateShot();
    s.integratorCT_->linearize();
    s.discreteA_ = Ax::Identity();
    s.integratorCT_->integrateSensitivityDX0(s.discreteA_, s.tStart_, s.nSteps_, s.settings_.dt_sim_);
    s.discreteB_ = Bx::Zero();
    s.integratorCT_->integrateSensitivityDU0(s.discreteB_, s.tStart_, s.nSteps_, s.settings_.dt_sim_);
    if (s.settings_.splineType_ == DmsSettings::PIECEWISE_LINEAR)
    {
        s.discreteBNext_ = Bx::Zero();
        s.integratorCT_->integrateSensitivityDUf(s.discreteBNext_, s.tStart_, s.nSteps_, s.settings_.dt_sim_);
    }
}
void Shot__integrateCostSensitivities(Shot& s)
{
    const size_t now = s.w_->updateCount_;
    if (s.costSensIntegrationCount_ == now)
        return;
    s.costSensIntegrationCount_ = now;
    s.integrateSensitivities();
    s.discreteQ_ = X::Zero();
    s.integratorCT_->integrateCostSensitivityDX0(s.discreteQ_, s.tStart_, s.nSteps_, s.settings_.dt_sim_);
    s.discreteR_ = U::Zero();
    s.integratorCT_->integrateCostSensitivityDU0(s.discreteR_, s.tStart_, s.nSteps_, s.settings_.dt_sim_);
    if (s.settings_.splineType_ == DmsSettings::PIECEWISE_LINEAR)
    {
        s.discreteRNext_ = U::Zero();
        s.integratorCT_->integrateCostSensitivityDUf(s.discreteRNext_, s.tStart_, s.nSteps_, s.settings_.dt_sim_);
    }
}
void Shot__reset(Shot& s)
{
    Sen& i = *s.integratorCT_;
    i.statesCached_.clear();
    i.controlsCached_.clear();
    i.timesCached_.clear();
    i.arrayA_.clear();
    i.arrayB_.clear();
    i.arraydX0_.clear();
    i.arraydU0_.clear();
    i.arraydUf_.clear();
}
const X& Shot__getStateIntegrated(Shot& s) { return s.stateSubsteps_.back(); }
double Shot__getIntegrationTimeFinal(Shot& s) { return s.timeSubsteps_.back(); }
const Ax& Shot__getdXdSiIntegrated(Shot& s) { return s.discreteA_; }
const Bx& Shot__getdXdQiIntegrated(Shot& s) { return s.discreteB_; }
const Bx& Shot__getdXdQip1Integrated(Shot& s) { return s.discreteBNext_; }
double Shot__getCostIntegrated(Shot& s) { return s.cost_; }
const X& Shot__getdLdSiIntegrated(Shot& s) { return s.discreteQ_; }
const U& Shot__getdLdQiIntegrated(Shot& s) { return s.discreteR_; }
const U& Shot__getdLdQip1Integrated(Shot& s) { return s.discreteRNext_; }
const XArr& Shot__getXHistory(Shot& s) { return s.stateSubsteps_; }
const Times& Shot__getTHistory(Shot& s) { return s.timeSubsteps_; }
const UArr& Shot__getUHistory(Shot& s)
{
    s.inputSubsteps_.clear();
    for (size_t i = 0; i < s.timeSubsteps_.size(); i++)
        s.inputSubsteps_.push_back(s.controlSpliner_->evalSpline(s.timeSubsteps_[i], s.shotNr_));
    return s.inputSubsteps_;
}

// ---- integrator with first order sensitivities
void Sen__integrate__traj(Sen& s, X& x, const double t0, const size_t n, const double dt, XArr& xs, Times& ts)
{
    s.statesCached_.clear();
    s.controlsCached_.clear();
    s.timesCached_.clear();
    s.arrayA_.clear();
    s.arrayB_.clear();
    s.cacheData_ = true;
    xs.clear();
    ts.clear();
    xs.push_back(x);
    double t = t0;
    ts.push_back(t);
    for (size_t i = 0; i < n; i++)
    {
        s.stepperState_->do_step(s.xDot_, x, t, dt);
        t += dt;
        xs.push_back(x);
        ts.push_back(t);
    }
}
void Sen__integrate__final(Sen& s, X& x, const double t0, const size_t n, const double dt)
{
    s.statesCached_.clear();
    s.controlsCached_.clear();
    s.timesCached_.clear();
    s.arrayA_.clear();
    s.arrayB_.clear();
    double t = t0;
    for (size_t i = 0; i < n; i++, t += dt)
        s.stepperState_->do_step(s.xDot_, x, t, dt);
}
void Sen__integrateSensitivityDX0(Sen& s, Ax& A, const double t0, const size_t n, const double dt)
{
    s.dX0Index_ = 0;
    A = Ax::Identity();
    double t = t0;
    for (size_t i = 0; i < n; i++, t += dt)
        s.stepperDX0_->do_step(s.dX0dot_, A, t, dt);
}
void Sen__integrateSensitivityDU0(Sen& s, Bx& B, const double t0, const size_t n, const double dt)
{
    s.dU0Index_ = 0;
    B = Bx::Zero();
    double t = t0;
    for (size_t i = 0; i < n; i++, t += dt)
        s.stepperDU0_->do_step(s.dU0dot_, B, t, dt);
}
void Sen__integrateSensitivityDUf(Sen& s, Bx& B, const double t0, const size_t n, const double dt)
{
    s.dU0Index_ = 0;
    B = Bx::Zero();
    double t = t0;
    for (size_t i = 0; i < n; i++, t += dt)
        s.stepperDU0_->do_step(s.dUfdot_, B, t, dt);
}
void Sen__integrateCost(Sen& s, double& c, const double t0, const size_t n, const double dt)
{
    s.costIndex_ = 0;
    if (s.statesCached_.size() == 0 || s.controlsCached_.size() == 0 || s.timesCached_.size() == 0)
        throw 1;
    double t = t0;
    for (size_t i = 0; i < n; i++, t += dt)
        s.stepperCost_->do_step(s.costDot_, c, t, dt);
}
void Sen__integrateCostSensitivityDX0(Sen& s, X& q, const double t0, const size_t n, const double dt)
{
    s.costIndex_ = 0;
    q = X::Zero();
    double t = t0;
    for (size_t i = 0; i < n; i++, t += dt)
        s.stepperCostDX0_->do_step(s.costdX0dot_, q, t, dt);
}
void Sen__integrateCostSensitivityDU0(Sen& s, U& r, const double t0, const size_t n, const double dt)
{
    s.costIndex_ = 0;
    r = U::Zero();
    double t = t0;
    for (size_t i = 0; i < n; i++, t += dt)
        s.stepperCostDU0_->do_step(s.costdU0dot_, r, t, dt);
}
void Sen__integrateCostSensitivityDUf(Sen& s, U& r, const double& t0, const size_t n, const double dt)
{
    s.costIndex_ = 0;
    r = U::Zero();
    double t = t0;
    for (size_t i = 0; i < n; i++, t += dt)
        s.stepperCostDU0_->do_step(s.costdUfdot_, r, t, dt);
}
void Sen__linearize(Sen& s)
{
    for (size_t i = 0; i < s.statesCached_.size(); i++)
    {
        s.arrayA_.push_back(s.linearSystem_->getDerivativeState(s.statesCached_[i], s.controlsCached_[i], s.timesCached_[i]));
        s.arrayB_.push_back(s.linearSystem_->getDerivativeControl(s.statesCached_[i], s.controlsCached_[i], s.timesCached_[i]));
    }
}
using Csys = std::shared_ptr<ct::core::ControlledSystem<NX, NU>>;
using Lsys = std::shared_ptr<ct::core::LinearSystem<NX, NU>>;
using Cfun = std::shared_ptr<CostFunctionQuadratic<NX, NU>>;
void Sen__scnX__use(Sen& s, const Csys& c, const X& x, X& d, const double t)
{
    s.setControlledSystem(c);
    s.xDot_(x, d, t);
}
void Sen__scnX__expect(Sen& s, const Csys& c, const X& x, X& d, const double t)
{
    s.controlledSystem_ = c;
    U u;
    c->getController()->computeControl(x, t, u);
    if (s.cacheData_)
    {
        s.statesCached_.push_back(x);
        s.controlsCached_.push_back(u);
        s.timesCached_.push_back(t);
    }
    c->computeControlledDynamics(x, t, u, d);
}
void Sen__scnDX__use(Sen& s, const Lsys& l, const Ax& in, Ax& d, const double t)
{
    s.setLinearSystem(l);
    s.dX0dot_(in, d, t);
}
void Sen__scnDX__expect(Sen& s, const Lsys& l, const Ax& in, Ax& d, const double t)
{
    s.linearSystem_ = l;
    s.cacheData_ = true;
    if (s.cacheSensitivities_)
        s.arraydX0_.push_back(in);
    d = s.arrayA_[s.dX0Index_] * in;
    s.dX0Index_++;
}
void Sen__scnDU__use(Sen& s, const Lsys& l, const Bx& in, Bx& d, const double t)
{
    s.setLinearSystem(l);
    s.dU0dot_(in, d, t);
}
void Sen__scnDU__expect(Sen& s, const Lsys& l, const Bx& in, Bx& d, const double t)
{
    s.linearSystem_ = l;
    s.cacheData_ = true;
    const size_t k = s.dU0Index_;
    if (s.cacheSensitivities_)
        s.arraydU0_.push_back(in);
    const UMat G = s.controlledSystem_->getController()->getDerivativeU0(s.statesCached_[k], s.timesCached_[k]);
    d = s.arrayA_[k] * in + s.arrayB_[k] * G;
    s.dU0Index_ = k + 1;
}
void Sen__scnDF__use(Sen& s, const Lsys& l, const Bx& in, Bx& d, const double t)
{
    s.setLinearSystem(l);
    s.dUfdot_(in, d, t);
}
void Sen__scnDF__expect(Sen& s, const Lsys& l, const Bx& in, Bx& d, const double t)
{
    s.linearSystem_ = l;
    s.cacheData_ = true;
    const size_t k = s.dU0Index_;
    if (s.cacheSensitivities_)
        s.arraydUf_.push_back(in);
    const UMat G = s.controlledSystem_->getController()->getDerivativeUf(s.statesCached_[k], s.timesCached_[k]);
    d = s.arrayA_[k] * in + s.arrayB_[k] * G;
    s.dU0Index_ = k + 1;
}
void Sen__scnCost__use(Sen& s, const Cfun f, const double& in, double& d, const double t)
{
    s.setCostFunction(f);
    s.costDot_(in, d, t);
}
void Sen__scnCost__expect(Sen& s, const Cfun f, const double& in, double& d, const double t)
{
    s.costFunction_ = f;
    s.cacheSensitivities_ = true;
    const size_t k = s.costIndex_;
    f->setCurrentStateAndControl(s.statesCached_[k], s.controlsCached_[k], s.timesCached_[k]);
    d = f->evaluateIntermediate();
    s.costIndex_ = k + 1;
}
void Sen__scnCostX__use(Sen& s, const Cfun f, const X& in, X& d, const double t)
{
    s.setCostFunction(f);
    s.costdX0dot_(in, d, t);
}
void Sen__scnCostX__expect(Sen& s, const Cfun f, const X& in, X& d, const double t)
{
    s.costFunction_ = f;
    s.cacheSensitivities_ = true;
    const size_t k = s.costIndex_;
    f->setCurrentStateAndControl(s.statesCached_[k], s.controlsCached_[k], s.timesCached_[k]);
    d = s.arraydX0_[k].transpose() * f->stateDerivativeIntermediate();
    s.costIndex_ = k + 1;
}
void Sen__scnCostU__use(Sen& s, const Cfun f, const U& in, U& d, const double t)
{
    s.setCostFunction(f);
    s.costdU0dot_(in, d, t);
}
void Sen__scnCostU__expect(Sen& s, const Cfun f, const U& in, U& d, const double t)
{
    s.costFunction_ = f;
    s.cacheSensitivities_ = true;
    const size_t k = s.costIndex_;
    f->setCurrentStateAndControl(s.statesCached_[k], s.controlsCached_[k], s.timesCached_[k]);
    const X lx = f->stateDerivativeIntermediate();
    const UMat G = s.controlledSystem_->getController()->getDerivativeU0(s.statesCached_[k], s.timesCached_[k]);
    d = s.arraydU0_[k].transpose() * lx + G * f->controlDerivativeIntermediate();
    s.costIndex_ = k + 1;
}
void Sen__scnCostF__use(Sen& s, const Cfun f, const U& in, U& d, const double t)
{
    s.setCostFunction(f);
    s.costdUfdot_(in, d, t);
}
void Sen__scnCostF__expect(Sen& s, const Cfun f, const U& in, U& d, const double t)
{
    s.costFunction_ = f;
    s.cacheSensitivities_ = true;
    const size_t k = s.costIndex_;
    f->setCurrentStateAndControl(s.statesCached_[k], s.controlsCached_[k], s.timesCached_[k]);
    const X lx = f->stateDerivativeIntermediate();
    const UMat G = s.controlledSystem_->getController()->getDerivativeUf(s.statesCached_[k], s.timesCached_[k]);
    d = s.arraydUf_[k].transpose() * lx + G * f->controlDerivativeIntermediate();
    s.costIndex_ = k + 1;
}

// ---- cost of the transcription
void CS__updatePhi(CS& s)
{
    assume(s.settings_.N_ >= 1);
    given(s.phi_.size(), s.settings_.N_ + 1);
    const size_t N = s.settings_.N_;
    const auto& t = s.timeGrid_->t_;
    if (s.settings_.splineType_ == DmsSettings::ZERO_ORDER_HOLD)
    {
        for (size_t i = 0; i < N; i++)
            s.phi_(i) = t[i + 1] - t[i];
        s.phi_(N) = 0.0;
    }
    else if (s.settings_.splineType_ == DmsSettings::PIECEWISE_LINEAR)
    {
        s.phi_(0) = 0.5 * (t[1] - t[0]);
        for (size_t i = 1; i < N; i++)
            s.phi_(i) = 0.5 * (t[i + 1] - t[i - 1]);
        s.phi_(N) = 0.5 * (t[N] - t[N - 1]);
    }
    else
        throw 1;
}
double CS__eval(CS& s)
{
    double c = 0.0;
    for (size_t i = 0; i <= s.settings_.N_; i++)
    {
        s.costFct_->setCurrentStateAndControl(s.w_->getOptimizedState(i), s.w_->getOptimizedControl(i), s.timeGrid_->t_[i]);
        c += s.phi_(i) * s.costFct_->evaluateIntermediate();
    }
    s.costFct_->setCurrentStateAndControl(s.w_->getOptimizedState(s.settings_.N_), U::Zero());
    return c + s.costFct_->evaluateTerminal();
}
void CS__evalGradient(CS& s, size_t n, Map& g)
{
    g.setZero();
    for (size_t i = 0; i <= s.settings_.N_; i++)
    {
        s.costFct_->setCurrentStateAndControl(s.w_->getOptimizedState(i), s.w_->getOptimizedControl(i), s.timeGrid_->t_[i]);
        g.segment(s.w_->getStateIndex(i), NX) += s.phi_(i) * s.costFct_->stateDerivativeIntermediate();
        g.segment(s.w_->getControlIndex(i), NU) += s.phi_(i) * s.costFct_->controlDerivativeIntermediate();
    }
    s.costFct_->setCurrentStateAndControl(s.w_->getOptimizedState(s.settings_.N_), U::Zero());
    g.segment(s.w_->getStateIndex(s.settings_.N_), NX) += s.costFct_->stateDerivativeTerminal();
}
double CF__eval(CF& s)
{
    given(s.shotContainers_.size(), s.settings_.N_);
    for (size_t i = 0; i < s.shotContainers_.size(); i++)
        s.shotContainers_[i]->integrateCost();
    double c = 0.0;
    for (size_t i = 0; i < s.shotContainers_.size(); i++)
        c += s.shotContainers_[i]->cost_;
    s.costFct_->setCurrentStateAndControl(s.w_->getOptimizedState(s.settings_.N_), U::Zero());
    return c + s.costFct_->evaluateTerminal();
}
void CF__evalGradient(CF& s, size_t n, Map& g)
{
    given(s.shotContainers_.size(), s.settings_.N_);
    g.setZero();
    for (size_t i = 0; i < s.shotContainers_.size(); i++)
        s.shotContainers_[i]->integrateCostSensitivities();
    for (size_t i = 0; i < s.shotContainers_.size(); i++)
    {
        const bool lin = s.settings_.splineType_ == DmsSettings::PIECEWISE_LINEAR;
        if (!lin && s.settings_.splineType_ != DmsSettings::ZERO_ORDER_HOLD)
            throw 1;
        g.segment(s.w_->getStateIndex(i), NX) += s.shotContainers_[i]->discreteQ_;
        g.segment(s.w_->getControlIndex(i), NU) += s.shotContainers_[i]->discreteR_;
        if (lin)
            g.segment(s.w_->getControlIndex(i + 1), NU) += s.shotContainers_[i]->discreteRNext_;
    }
    s.costFct_->setCurrentStateAndControl(s.w_->getOptimizedState(s.settings_.N_), U::Zero());
    g.segment(s.w_->getStateIndex(s.settings_.N_), NX) += s.costFct_->stateDerivativeTerminal();
}

// ---- path constraints at every node, terminal constraints at the last
static void dscAdd(Dsc& s, std::shared_ptr<Lcc> c)
{
    s.constraints_.push_back(c);
    s.constraintsIntermediateCount_ += (s.N_ + 1) * c->getIntermediateConstraintsCount();
    s.constraintsTerminalCount_ += c->getTerminalConstraintsCount();
    s.constraintsCount_ = s.constraintsIntermediateCount_ + s.constraintsTerminalCount_;
    s.discreteConstraints_.resize(s.constraintsCount_);
    s.discreteLowerBound_.resize(s.constraintsCount_);
    s.discreteUpperBound_.resize(s.constraintsCount_);
    s.nonZeroJacCountIntermediate_ +=
        (s.N_ + 1) * (c->getJacobianStateNonZeroCountIntermediate() + c->getJacobianInputNonZeroCountIntermediate());
    s.nonZeroJacCountTerminal_ += c->getJacobianStateNonZeroCountTerminal() + c->getJacobianInputNonZeroCountTerminal();
    s.nonZeroJacCount_ = s.nonZeroJacCountIntermediate_ + s.nonZeroJacCountTerminal_;
    s.discreteJac_.resize(s.nonZeroJacCount_);
    s.discreteIRow_.resize(s.nonZeroJacCount_);
    s.discreteJCol_.resize(s.nonZeroJacCount_);
}
void Dsc__setBoxConstraints(Dsc& s, std::shared_ptr<Lcc> c) { dscAdd(s, c); }
void Dsc__setGeneralConstraints(Dsc& s, std::shared_ptr<Lcc> c) { dscAdd(s, c); }
VX Dsc__eval(Dsc& s)
{
    size_t k = 0;
    for (size_t n = 0; n <= s.N_; n++)
    {
        const double t = s.timeGrid_->t_[n];
        for (size_t c = 0; c < s.constraints_.size(); c++)
        {
            s.constraints_[c]->setCurrentStateAndControl(s.w_->getOptimizedState(n), s.controlSpliner_->evalSpline(t, n), t);
            const size_t m = s.constraints_[c]->getIntermediateConstraintsCount();
            if (m > 0)
            {
                s.discreteConstraints_.segment(k, m) = s.constraints_[c]->evaluateIntermediate();
                k += m;
            }
        }
    }
    for (size_t c = 0; c < s.constraints_.size(); c++)
    {
        const size_t m = s.constraints_[c]->getTerminalConstraintsCount();
        if (m > 0)
        {
            s.discreteConstraints_.segment(k, m) = s.constraints_[c]->evaluateTerminal();
            k += m;
        }
    }
    return s.discreteConstraints_;
}
VX Dsc__evalSparseJacobian(Dsc& s)
{
    size_t k = 0;
    for (size_t n = 0; n <= s.N_; n++)
    {
        const double t = s.timeGrid_->t_[n];
        for (size_t c = 0; c < s.constraints_.size(); c++)
        {
            s.constraints_[c]->setCurrentStateAndControl(s.w_->getOptimizedState(n), s.controlSpliner_->evalSpline(t, n), t);
            const size_t p = s.constraints_[c]->getJacobianStateNonZeroCountIntermediate();
            if (p > 0)
            {
                s.discreteJac_.segment(k, p) = s.constraints_[c]->jacobianStateSparseIntermediate();
                k += p;
            }
            const size_t q = s.constraints_[c]->getJacobianInputNonZeroCountIntermediate();
            if (q > 0)
            {
                s.discreteJac_.segment(k, q) = s.constraints_[c]->jacobianInputSparseIntermediate();
                k += q;
            }
        }
    }
    for (size_t c = 0; c < s.constraints_.size(); c++)
    {
        const size_t p = s.constraints_[c]->getJacobianStateNonZeroCountTerminal();
        if (p > 0)
        {
            s.discreteJac_.segment(k, p) = s.constraints_[c]->jacobianStateSparseTerminal();
            k += p;
        }
        const size_t q = s.constraints_[c]->getJacobianInputNonZeroCountTerminal();
        if (q > 0)
        {
            s.discreteJac_.segment(k, q) = s.constraints_[c]->jacobianInputSparseTerminal();
            k += q;
        }
    }
    return s.discreteJac_;
}
#define DSC_BOUND(NAME, FIELD, CALLI, CALLT)                                                  \
    VX Dsc__##NAME(Dsc& s)                                                                    \
    {                                                                                         \
        size_t k = 0;                                                                         \
        for (size_t n = 0; n <= s.N_; n++)                                                    \
            for (size_t c = 0; c < s.constraints_.size(); c++)                                \
            {                                                                                 \
                const size_t m = s.constraints_[c]->getIntermediateConstraintsCount();        \
                if (m > 0)                                                                    \
                {                                                                             \
                    s.FIELD.segment(k, m) = s.constraints_[c]->CALLI();                       \
                    k += m;                                                                   \
                }                                                                             \
            }                                                                                 \
        for (size_t c = 0; c < s.constraints_.size(); c++)                                    \
        {                                                                                     \
            const size_t m = s.constraints_[c]->getTerminalConstraintsCount();                \
            if (m > 0)                                                                        \
            {                                                                                 \
                s.FIELD.segment(k, m) = s.constraints_[c]->CALLT();                           \
                k += m;                                                                       \
            }                                                                                 \
        }                                                                                     \
        return s.FIELD;                                                                       \
    }
DSC_BOUND(getLowerBound, discreteLowerBound_, getLowerBoundsIntermediate, getLowerBoundsTerminal)
DSC_BOUND(getUpperBound, discreteUpperBound_, getUpperBoundsIntermediate, getUpperBoundsTerminal)
size_t Dsc__getConstraintSize(Dsc& s) { return s.constraintsCount_; }
size_t Dsc__getNumNonZerosJacobian(Dsc& s) { return s.nonZeroJacCount_; }
void Dsc__genSparsityPattern(Dsc& s, VI& r, VI& q)
{
    size_t k = 0, row = 0;
    for (size_t n = 0; n <= s.N_; n++)
        for (size_t c = 0; c < s.constraints_.size(); c++)
        {
            const size_t a = s.constraints_[c]->getJacobianStateNonZeroCountIntermediate();
            if (a > 0)
            {
                VI ri(a), ci(a);
                s.constraints_[c]->sparsityPatternStateIntermediate(ri, ci);
                s.discreteIRow_.segment(k, a) = ri.array() + row;
                s.discreteJCol_.segment(k, a) = ci.array() + s.w_->getStateIndex(n);
                k += a;
            }
            const size_t b = s.constraints_[c]->getJacobianInputNonZeroCountIntermediate();
            if (b > 0)
            {
                VI ri(b), ci(b);
                s.constraints_[c]->sparsityPatternInputIntermediate(ri, ci);
                s.discreteIRow_.segment(k, b) = ri.array() + row;
                s.discreteJCol_.segment(k, b) = ci.array() + s.w_->getControlIndex(n);
                k += b;
            }
            row += s.constraints_[c]->getIntermediateConstraintsCount();
        }
    for (size_t c = 0; c < s.constraints_.size(); c++)
    {
        const size_t a = s.constraints_[c]->getJacobianStateNonZeroCountTerminal();
        if (a > 0)
        {
            VI ri(a), ci(a);
            s.constraints_[c]->sparsityPatternStateTerminal(ri, ci);
            s.discreteIRow_.segment(k, a) = ri.array() + row;
            s.discreteJCol_.segment(k, a) = ci.array() + s.w_->getStateIndex(s.N_);
            k += a;
        }
        const size_t b = s.constraints_[c]->getJacobianInputNonZeroCountTerminal();
        if (b > 0)
        {
            VI ri(b), ci(b);
            s.constraints_[c]->sparsityPatternInputTerminal(ri, ci);
            s.discreteIRow_.segment(k, b) = ri.array() + row;
            s.discreteJCol_.segment(k, b) = ci.array() + s.w_->getControlIndex(s.N_);
            k += b;
        }
        row += s.constraints_[c]->getTerminalConstraintsCount();
    }
    r = s.discreteIRow_;
    q = s.discreteJCol_;
}

// ---- all constraints of the transcription, the problem
void CC__prepareEvaluation(CC& s)
{
    given(s.shotContainers_.size(), s.settings_.N_);
    for (size_t i = 0; i < s.shotContainers_.size(); i++)
        s.shotContainers_[i]->integrateShot();
}
void CC__prepareJacobianEvaluation(CC& s)
{
    given(s.shotContainers_.size(), s.settings_.N_);
    for (size_t i = 0; i < s.shotContainers_.size(); i++)
        s.shotContainers_[i]->integrateSensitivities();
}
void CC__changeInitialConstraint(CC& s, const X& x0) { s.c_init_->x_0_ = x0; }
void Prob__updateProblem(Prob& s)
{
    const UArr& u = s.optVariablesDms_->getOptimizedInputs();
    s.controlSpliner_->computeSpline(u.toImplementation());
    for (size_t i = 0; i < s.shotContainers_.size(); i++)
        s.shotContainers_[i]->reset();
}
void Prob__changeInitialState(Prob& s, const X& x0)
{
    s.optVariablesDms_->changeInitialState(x0);
    static_cast<CC&>(*s.constraints_).c_init_->x_0_ = x0;
}
void Prob__changeTimeHorizon(Prob& s, const double T) { s.timeGrid_->changeTimeHorizon(T); }
const XArr& Prob__getStateSolution(Prob& s) { return s.optVariablesDms_->getOptimizedStates(); }
const UArr& Prob__getInputSolution(Prob& s) { return s.optVariablesDms_->getOptimizedInputs(); }
const Times& Prob__getTimeSolution(Prob& s) { return s.timeGrid_->t_; }
const XArr& Prob__getStateTrajectory(Prob& s) { return s.optVariablesDms_->getOptimizedStates(); }
const UArr& Prob__getInputTrajectory(Prob& s) { return s.optVariablesDms_->getOptimizedInputs(); }
const Times& Prob__getTimeArray(Prob& s) { return s.timeGrid_->t_; }
void Prob__setInitialGuess(Prob& s, const XArr& x, const UArr& u, const Times& t) { s.optVariablesDms_->setInitGuess(x, u); }
}}  // namespace spec::C14
