#pragma once
#include "spec.hpp"
// ------------------------------------------------------------------ NLOC: rollouts, costs, line search, iteration
namespace spec { namespace C04 {
using namespace ct::core;
using namespace ct::optcon;
using B = NLOCBackendST<NX, NU, 1, 1, double, true>;
using X = StateVector<NX>;
using U = ControlVector<NU>;
using XA = StateVectorArray<NX>;
using UA = ControlVectorArray<NU>;
using Con = B::OptConProblem_t::ConstraintPtr_t;
using VX = Eigen::Matrix<double, Eigen::Dynamic, 1>;
using ALG = NLOptConSettings::NLOCP_ALGORITHM;

int B__getNumStepsPerShot(B& s)
{
    if (s.settings_.isSingleShooting())
        return s.K_;
    return s.settings_.K_shot < s.K_ ? s.settings_.K_shot : s.K_;
}
// one shot: integrate from x[k] with the (closed loop) control until the next shot starts
bool B__rolloutSingleShot(B& s, const size_t th, const size_t k, UA& u, XA& x, const XA& xref, XA& shot, B::StateSubsteps& subX, B::ControlSubsteps& subU,
    std::atomic_bool* stop)
{
    const int K = s.K_;
    if (u.size() < (size_t)K || x.size() < (size_t)K + 1 || shot.size() < (size_t)K + 1)
        throw 1;
    shot[k] = x[k];
    int last = k + s.getNumStepsPerShot();
    if (last > K)
        last = K;
    for (int i = (int)k; i < last; i++)
    {
        if (stop && *stop)
            return false;
        if (i > (int)k)
            shot[i] = shot[i - 1];
        if (s.settings_.closedLoopShooting())
            u[i] += s.L_[i] * (shot[i] - xref[i]);
        if (i > (int)k)
            x[i] = shot[i - 1];
        X nxt;
        s.systemInterface_->propagateControlledDynamics(shot[i], i, u[i], nxt, th);
        shot[i] = nxt;
        if (i == K - 1)
            x[K] = shot[K - 1];
        if (std::isnan(x[i](0)) || std::isnan(x[i](1)) || std::isnan(x[i](2)) || std::isnan(u[i](0)) || std::isnan(u[i](1)))
        {
            x.resize(K + 1, X(X::Constant(std::numeric_limits<double>::quiet_NaN())));
            u.resize(K, U(U::Constant(std::numeric_limits<double>::quiet_NaN())));
            return false;
        }
        s.systemInterface_->getSubstates(subX[i], th);
        s.systemInterface_->getSubcontrols(subU[i], th);
    }
    return true;
}
bool B__rolloutShotsSingleThreaded(B& s, size_t th, size_t first, size_t last, UA& u, XA& x, const XA& xref, XA& shot, XA& d, B::StateSubsteps& subX,
    B::ControlSubsteps& subU, std::atomic_bool* stop)
{
    for (size_t i = 0; i < d.size(); i++)
        d[i].setZero();
    for (size_t k = first; k <= last; k = k + s.getNumStepsPerShot())
    {
        if (!s.rolloutSingleShot(th, k, u, x, xref, shot, subX, subU, stop))
            return false;
        s.computeSingleDefect(k, x, shot, d);
    }
    return true;
}
void B__rolloutShots(B& s, size_t first, size_t last)
{
    for (size_t k = first; k <= last; k = k + s.getNumStepsPerShot())
    {
        s.rolloutSingleShot(s.settings_.nThreads, k, s.u_ff_, s.x_, s.x_ref_lqr_, s.xShot_, *s.substepsX_, *s.substepsU_);
        s.computeSingleDefect(k, s.x_, s.xShot_, s.d_);
    }
}
// the defect sits at the last stage of the shot, and only where another shot follows
void B__computeSingleDefect(B& s, size_t k, const XA& x, const XA& shot, XA& d)
{
    const int next = (int)k + s.settings_.K_shot;
    if (next < s.K_)
        d[next - 1] = shot[next - 1] - x[next];
}
// sum of stage costs times dt, terminal cost at the terminal state and time
void B__computeCostsOfTrajectory(B& s, size_t th, const XA& x, const UA& u, double& stage, double& term)
{
    stage = 0;
    for (size_t k = 0; k < (size_t)s.K_; k++)
    {
        s.costFunctions_[th]->setCurrentStateAndControl(x[k], u[k], s.settings_.dt * k);
        stage += s.costFunctions_[th]->evaluateIntermediate();
    }
    stage *= s.settings_.dt;
    s.costFunctions_[th]->setCurrentStateAndControl(x[s.K_], U::Zero(), s.settings_.dt * s.K_);
    term = s.costFunctions_[th]->evaluateTerminal();
}
void B__computeBoxConstraintErrorOfTrajectory(B& s, size_t th, const XA& x, const UA& u, double& e)
{
    e = 0;
    for (size_t k = 0; k < (size_t)s.K_; k++)
    {
        if (s.inputBoxConstraints_[th] && s.inputBoxConstraints_[th]->getIntermediateConstraintsCount() > 0)
        {
            s.inputBoxConstraints_[th]->setCurrentStateAndControl(x[k], u[k], s.settings_.dt * k);
            e += s.inputBoxConstraints_[th]->getTotalBoundsViolationIntermediate().template lpNorm<1>();
        }
        if (s.stateBoxConstraints_[th] && s.stateBoxConstraints_[th]->getIntermediateConstraintsCount() > 0)
        {
            s.stateBoxConstraints_[th]->setCurrentStateAndControl(x[k], u[k], s.settings_.dt * k);
            e += s.stateBoxConstraints_[th]->getTotalBoundsViolationIntermediate().template lpNorm<1>();
        }
    }
    e *= s.settings_.dt;
    if (s.stateBoxConstraints_[th] && s.stateBoxConstraints_[th]->getTerminalConstraintsCount() > 0)
    {
        s.stateBoxConstraints_[th]->setCurrentStateAndControl(x[s.K_], U::Zero(), s.settings_.dt * s.K_);
        e += s.stateBoxConstraints_[th]->getTotalBoundsViolationTerminal().template lpNorm<1>();
    }
}
void B__computeGeneralConstraintErrorOfTrajectory(B& s, size_t th, const XA& x, const UA& u, double& e)
{
    e = 0;
    for (size_t k = 0; k < (size_t)s.K_; k++)
        if (s.generalConstraints_[th] && s.generalConstraints_[th]->getIntermediateConstraintsCount() > 0)
        {
            s.generalConstraints_[th]->setCurrentStateAndControl(x[k], u[k], s.settings_.dt * k);
            e += s.generalConstraints_[th]->getTotalBoundsViolationIntermediate().template lpNorm<1>();
        }
    e *= s.settings_.dt;
    if (s.generalConstraints_[th] && s.generalConstraints_[th]->getTerminalConstraintsCount() > 0)
    {
        s.generalConstraints_[th]->setCurrentStateAndControl(x[s.K_], U::Zero(), s.settings_.dt * s.K_);
        e += s.generalConstraints_[th]->getTotalBoundsViolationTerminal().template lpNorm<1>();
    }
}
// candidate of step length alpha: weighted updates, rollout, then the merit ingredients of that same rollout
void B__executeLineSearch(B& s, const size_t th, const double alpha, XA& x, XA& shot, XA& d, UA& u, double& stage, double& term, double& defect, double& box,
    double& gen, B::StateSubsteps& subX, B::ControlSubsteps& subU, std::atomic_bool* null_stop)
{
    stage = term = defect = std::numeric_limits<double>::max();
    box = gen = 0;
    u = s.delta_u_ff_ * alpha + s.u_ff_prev_;
    x = s.delta_x_ * alpha + s.x_prev_;
    XA xref = s.delta_x_ref_lqr_ * alpha + s.x_prev_;
    if (s.rolloutShotsSingleThreaded(th, 0, s.K_ - 1, u, x, xref, shot, d, subX, subU, null_stop))
    {
        defect = s.template computeDefectsNorm<1>(d);
        s.computeCostsOfTrajectory(th, x, u, stage, term);
        if (s.inputBoxConstraints_[th] || s.stateBoxConstraints_[th])
            s.computeBoxConstraintErrorOfTrajectory(th, x, u, box);
        if (s.generalConstraints_[th])
            s.computeGeneralConstraintErrorOfTrajectory(th, x, u, gen);
    }
}
bool B__acceptStep(B& s, const double alpha, const double stage, const double term, const double defect, const double box, const double gen,
    const double prev, double& merit)
{
    const LineSearchSettings& l = s.settings_.lineSearchSettings;
    if (l.type != LineSearchSettings::TYPE::SIMPLE && l.type != LineSearchSettings::TYPE::ARMIJO)
        throw 1;
    merit = stage + term + s.settings_.meritFunctionRho * defect + s.settings_.meritFunctionRhoConstraints * (box + gen);
    if (l.type == LineSearchSettings::TYPE::SIMPLE)
        return prev - merit > 0.0 && !std::isnan(merit);
    if (std::isnan(merit))
        return false;
    double d1 = 0, d2 = 0;
    const UA& lv = s.lqocSolver_->get_lv();
    for (int i = 0; i < s.K_; i++)
    {
        d1 += lv[i].dot(s.lqocProblem_->rv_[i]);
        d2 += lv[i].dot(s.lqocProblem_->R_[i] * lv[i]);
    }
    return prev - merit >= l.armijo_parameter * (alpha * d1 + alpha * alpha * d2 / 2) && prev - merit >= 0.0;
}
bool B__lineSearch(B& s)
{
    double prev;
    s.u_ff_prev_ = s.u_ff_;
    s.x_prev_ = s.x_;
    if (s.settings_.lineSearchSettings.type == LineSearchSettings::TYPE::NONE)
    {
        prev = s.intermediateCostBest_ + s.finalCostBest_;
        s.doFullStepUpdate();
        s.resetDefects();
        s.rolloutShots(0, s.K_ - 1);
        s.d_norm_ = s.template computeDefectsNorm<1>(s.d_);
        s.updateCosts();
        s.lowestCost_ = s.intermediateCostBest_ + s.finalCostBest_;
        s.lu_norm_ = s.template computeDiscreteArrayNorm<UA, 2>(s.u_ff_prev_, s.u_ff_);
        s.lx_norm_ = s.template computeDiscreteArrayNorm<XA, 2>(s.x_prev_, s.x_);
        s.x_prev_ = s.x_;
        s.alphaBest_ = 1;
    }
    else
    {
        s.d_norm_ = s.template computeDefectsNorm<1>(s.d_);
        prev = s.intermediateCostBest_ + s.finalCostBest_ + s.d_norm_ * s.settings_.meritFunctionRho +
               (s.e_box_norm_ + s.e_gen_norm_) * s.settings_.meritFunctionRhoConstraints;
        s.lowestCost_ = prev;
        s.resetDefects();
        s.alphaBest_ = s.performLineSearch();
        if (s.alphaBest_ == 0.0)
            return false;
    }
    return std::fabs((prev - s.lowestCost_) / prev) > s.settings_.min_cost_improvement || s.d_norm_ > s.settings_.maxDefectSum;
}
// the first step length alpha_0, alpha_0 n_alpha, ... whose merit is accepted is taken over in full; otherwise nothing changes
double B__performLineSearch(B& s)
{
    const LineSearchSettings& l = s.settings_.lineSearchSettings;
    double alpha = l.alpha_0;
    s.lx_norm_ = 0.0;
    s.lu_norm_ = 0.0;
    for (size_t it = 0; it < l.maxIterations; it++)
    {
        const double mx = std::numeric_limits<double>::max();
        double cost = mx, stage = mx, term = mx, defect = mx, box = mx, gen = mx;
        XA x(s.K_ + 1), shot(s.K_ + 1), d(s.K_ + 1, X::Zero());
        UA u(s.K_);
        B::StateSubstepsPtr subX(new B::StateSubsteps(s.K_ + 1));
        B::ControlSubstepsPtr subU(new B::ControlSubsteps(s.K_ + 1));
        s.executeLineSearch(s.settings_.nThreads, alpha, x, shot, d, u, stage, term, defect, box, gen, *subX, *subU);
        if (s.acceptStep(alpha, stage, term, defect, box, gen, s.lowestCost_, cost))
        {
            s.lu_norm_ = s.template computeDiscreteArrayNorm<UA, 2>(u, s.u_ff_prev_);
            s.lx_norm_ = s.template computeDiscreteArrayNorm<XA, 2>(x, s.x_prev_);
            s.intermediateCostBest_ = stage;
            s.finalCostBest_ = term;
            s.d_norm_ = defect;
            s.e_box_norm_ = box;
            s.e_gen_norm_ = gen;
            s.lowestCost_ = cost;
            s.x_prev_ = x;
            s.x_ = x;
            s.xShot_ = shot;
            s.u_ff_ = u;
            s.d_ = d;
            s.substepsX_ = subX;
            s.substepsU_ = subU;
            return alpha;
        }
        alpha = alpha * l.n_alpha;
    }
    return 0.0;
}
void B__doFullStepUpdate(B& s)
{
    s.alphaBest_ = 1.0;
    s.x_ += s.delta_x_;
    s.u_ff_ += s.delta_u_ff_;
    s.x_ref_lqr_ += s.delta_x_ref_lqr_;
}
void B__updateCosts(B& s)
{
    s.intermediateCostPrevious_ = s.intermediateCostBest_;
    s.finalCostPrevious_ = s.finalCostBest_;
    s.computeCostsOfTrajectory(s.settings_.nThreads, s.x_, s.u_ff_, s.intermediateCostBest_, s.finalCostBest_);
}
bool B__nominalRollout(B& s)
{
    const bool ok = s.rolloutSingleShot(s.settings_.nThreads, 0, s.u_ff_, s.x_, s.x_prev_, s.xShot_, *s.substepsX_, *s.substepsU_);
    s.x_prev_ = s.x_;
    s.u_ff_prev_ = s.u_ff_;
    s.firstRollout_ = false;
    return ok;
}
void B__resetDefects(B& s)
{
    for (size_t i = 0; i < s.d_.size(); i++)
        s.d_[i].setZero();
}
void B__computeDefectsNorm(B& s) { s.d_norm_ = s.template computeDefectsNorm<1>(s.d_); }
double B__computeDefectsNorm__arr(B& s, const XA& d)
{
    double n = 0;
    for (size_t i = 0; i < d.size(); i++)
        n += std::fabs(d[i](0)) + std::fabs(d[i](1)) + std::fabs(d[i](2));
    return n;
}
// ------------------------------------------------------------------ problem changes
void B__setInitialGuess(B& s, const B::Policy_t& g)
{
    const size_t K = s.K_;
    if (g.x_ref().size() < K + 1 || g.uff().size() < K || g.K().size() < K)
        throw 1;
    s.u_ff_ = g.uff();
    s.L_ = g.K();
    s.x_ = g.x_ref();
    s.x_prev_ = s.x_;
    s.x_ref_lqr_ = s.x_;
    if (s.x_.size() > K + 1)
        s.x_.resize(K + 1);
    if (s.u_ff_.size() > K)
        s.u_ff_.resize(K);
    if (s.L_.size() > K)
        s.L_.resize(K);
    s.initialized_ = true;
    s.t_ = ct::core::tpl::TimeArray<double>(s.settings_.dt, s.x_.size(), 0.0);
    s.reset();
    s.computeCostsOfTrajectory(s.settings_.nThreads, s.x_, s.u_ff_, s.intermediateCostBest_, s.finalCostBest_);
    s.intermediateCostPrevious_ = s.intermediateCostBest_;
    s.finalCostPrevious_ = s.finalCostBest_;
}
void B__changeTimeHorizon__int(B& s, int n)
{
    if (n == s.K_)
        return;
    if (n < 1)
        throw 1;
    s.K_ = n;
    s.t_ = ct::core::tpl::TimeArray<double>(s.settings_.dt, n + 1, 0.0);
    s.x_.resize(n + 1);
    s.x_prev_.resize(n + 1);
    s.xShot_.resize(n + 1);
    s.delta_x_.resize(n + 1);
    s.x_ref_lqr_.resize(n + 1);
    s.delta_x_ref_lqr_.resize(n + 1);
    s.u_ff_.resize(n);
    s.u_ff_prev_.resize(n);
    s.delta_u_ff_.resize(n);
    s.d_.resize(n + 1);
    s.L_.resize(n);
    s.substepsX_->resize(n + 1);
    s.substepsU_->resize(n + 1);
    s.resetDefects();
    s.systemInterface_->changeNumStages(n);
    s.lqocProblem_->changeNumStages(n);
    s.lqocProblem_->setZero();
    s.lqocSolver_->setProblem(s.lqocProblem_);
}
void B__changeTimeHorizon__tf(B& s, const double& tf)
{
    if (tf < 0)
        throw 1;
    s.changeTimeHorizon(s.settings_.computeK(tf));
}
void B__changeInitialState(B& s, const X& x0)
{
    if (s.x_.size() == 0)
        s.x_.resize(1);
    s.x_[0] = x0;
    s.reset();
}
void B__changeCostFunction(B& s, const B::OptConProblem_t::CostFunctionPtr_t& cf)
{
    if (!cf)
        throw 1;
    s.costFunctions_.resize(s.settings_.nThreads + 1);
    for (int i = 0; i <= s.settings_.nThreads; i++)
        s.costFunctions_[i] = B::OptConProblem_t::CostFunctionPtr_t(cf->clone());
    if (s.iteration_ > 0 && s.settings_.lineSearchSettings.type != LineSearchSettings::TYPE::NONE)
        s.computeCostsOfTrajectory(s.settings_.nThreads, s.x_, s.u_ff_, s.intermediateCostBest_, s.finalCostBest_);
}
void B__changeInputBoxConstraints(B& s, const Con& c)
{
    if (!c)
        throw 1;
    s.inputBoxConstraints_.resize(s.settings_.nThreads + 1);
    for (int i = 0; i <= s.settings_.nThreads; i++)
        s.inputBoxConstraints_[i] = Con(c->clone());
    if (s.iteration_ > 0 && s.settings_.lineSearchSettings.type != LineSearchSettings::TYPE::NONE)
        s.computeBoxConstraintErrorOfTrajectory(s.settings_.nThreads, s.x_, s.u_ff_, s.e_box_norm_);
    s.setInputBoxConstraintsForLQOCProblem();
}
void B__changeStateBoxConstraints(B& s, const Con& c)
{
    if (!c)
        throw 1;
    s.stateBoxConstraints_.resize(s.settings_.nThreads + 1);
    for (int i = 0; i <= s.settings_.nThreads; i++)
        s.stateBoxConstraints_[i] = Con(c->clone());
    if (s.iteration_ > 0 && s.settings_.lineSearchSettings.type != LineSearchSettings::TYPE::NONE)
        s.computeBoxConstraintErrorOfTrajectory(s.settings_.nThreads, s.x_, s.u_ff_, s.e_box_norm_);
    s.setStateBoxConstraintsForLQOCProblem();
}
void B__checkProblem(B& s)
{
    if (s.K_ == 0 || s.u_ff_.size() < (size_t)s.K_)
        throw 1;
}
void B__configure(B& s, const NLOptConSettings& c)
{
    if (!c.parametersOk() || c.nThreads != s.settings_.nThreads)
        throw 1;
    s.systemInterface_->configure(c);
    if (c.lqocp_solver != NLOptConSettings::GNRICCATI_SOLVER)
        throw 1;
    s.lqocSolver_ = std::shared_ptr<GNRiccatiSolver<NX, NU>>(new GNRiccatiSolver<NX, NU>());
    s.lqocSolver_->configure(c);
    s.settings_ = c;
    s.reset();
    s.configured_ = true;
}
void B__reset(B& s)
{
    s.firstRollout_ = true;
    s.iteration_ = 0;
    s.d_norm_ = std::numeric_limits<double>::infinity();
    s.lx_norm_ = std::numeric_limits<double>::infinity();
    s.lu_norm_ = std::numeric_limits<double>::infinity();
    s.intermediateCostBest_ = std::numeric_limits<double>::infinity();
    s.finalCostBest_ = std::numeric_limits<double>::infinity();
    s.intermediateCostPrevious_ = std::numeric_limits<double>::infinity();
    s.finalCostPrevious_ = std::numeric_limits<double>::infinity();
    s.resetDefects();
}
ControlTrajectory<NU> B__getControlTrajectory(B& s)
{
    ct::core::tpl::TimeArray<double> t = s.t_;
    t.pop_back();
    return ControlTrajectory<NU>(t, s.u_ff_);
}
StateTrajectory<NX> B__getStateTrajectory(B& s) { return StateTrajectory<NX>(s.t_, s.x_); }
double B__getCost(B& s) { return s.intermediateCostBest_ + s.finalCostBest_; }
double B__getTimeHorizon(B& s) { return s.K_ * s.settings_.dt; }
int B__getNumSteps(B& s) { return s.K_; }
double B__getTotalDefect(B& s) { return s.d_norm_; }
}}
// ------------------------------------------------------------------ NLOC: one iteration, and the solver facade
namespace spec { namespace C24 {
using namespace ct::core;
using namespace ct::optcon;
using BB = NLOCBackendBase<NX, NU, 1, 1, double, true>;
using SS = SingleShooting<NX, NU, 1, 1, double, true>;
using MS = MultipleShooting<NX, NU, 1, 1, double, true>;
using Sol = NLOptConSolver<NX, NU>;

void ready(BB& b)
{
    if (!b.isInitialized() || !b.isConfigured())
        throw 1;
    b.checkProblem();
}
void SS__prepareIteration(SS& s) { ready(*s.backend_); }
bool SS__finishIteration(SS& s)
{
    BB& b = *s.backend_;
    const int K = b.getNumSteps();
    if (b.iteration() == 0)
    {
        if (!b.nominalRollout())
            throw 1;
        b.updateCosts();
    }
    b.setInputBoxConstraintsForLQOCProblem();
    b.setStateBoxConstraintsForLQOCProblem();
    b.computeLQApproximation(0, K - 1);
    b.solveFullLQProblem();
    b.extractSolution();
    const bool better = b.lineSearch();
    b.printSummary();
    b.iteration()++;
    return better;
}
bool SS__runIteration(SS& s)
{
    s.prepareIteration();
    return s.finishIteration();
}
void SS__prepareMPCIteration(SS& s) { s.prepareIteration(); }
bool SS__finishMPCIteration(SS& s)
{
    s.finishIteration();
    return true;
}
void MS__prepareIteration(MS& s)
{
    BB& b = *s.backend_;
    ready(b);
    const int K = b.getNumSteps(), n = b.getNumStepsPerShot();
    if (b.iteration() == 0)
        b.rolloutShots(n, K - 1);
    b.setInputBoxConstraintsForLQOCProblem();
    b.setStateBoxConstraintsForLQOCProblem();
    b.computeLQApproximation(n, K - 1);
    b.prepareSolveLQProblem(n);
}
bool MS__finishIteration(MS& s)
{
    BB& b = *s.backend_;
    const int n = b.getNumStepsPerShot();
    if (b.iteration() == 0)
    {
        b.rolloutShots(0, n - 1);
        b.updateCosts();
        b.computeDefectsNorm();
    }
    b.computeLQApproximation(0, n - 1);
    b.finishSolveLQProblem(n - 1);
    b.extractSolution();
    const bool better = b.lineSearch();
    b.printSummary();
    b.iteration()++;
    return better;
}
bool MS__runIteration(MS& s)
{
    s.prepareIteration();
    return s.finishIteration();
}
void MS__prepareMPCIteration(MS& s)
{
    BB& b = *s.backend_;
    ready(b);
    const int K = b.getNumSteps(), n = b.getNumStepsPerShot();
    b.resetDefects();
    b.rolloutShots(n, K - 1);
    b.setInputBoxConstraintsForLQOCProblem();
    b.setStateBoxConstraintsForLQOCProblem();
    b.computeLQApproximation(n, K - 1);
    b.prepareSolveLQProblem(n);
}
bool MS__finishMPCIteration(MS& s)
{
    BB& b = *s.backend_;
    const int n = b.getNumStepsPerShot();
    b.rolloutShots(0, n - 1);
    b.updateCosts();
    b.computeDefectsNorm();
    b.computeLQApproximation(0, n - 1);
    b.finishSolveLQProblem(n - 1);
    b.extractSolution();
    b.doFullStepUpdate();
    b.printSummary();
    b.iteration()++;
    return true;
}
void Sol__setAlgorithm(Sol& s, const NLOptConSettings& c)
{
    if (c.isSingleShooting())
        s.nlocAlgorithm_ = std::shared_ptr<NLOCAlgorithm<NX, NU, 1, 1, double, true>>(new SS(s.nlocBackend_, c));
    else
        s.nlocAlgorithm_ = std::shared_ptr<NLOCAlgorithm<NX, NU, 1, 1, double, true>>(new MS(s.nlocBackend_, c));
}
void Sol__initialize(Sol& s, const Sol::OptConProblem_t& p, const NLOptConSettings& c)
{
    if (c.nThreads > 1)
        s.nlocBackend_ = std::shared_ptr<BB>(new NLOCBackendMP<NX, NU, 1, 1, double, true>(p, c));
    else
        s.nlocBackend_ = std::shared_ptr<BB>(new NLOCBackendST<NX, NU, 1, 1, double, true>(p, c));
    s.setAlgorithm(c);
}
void Sol__configure(Sol& s, const NLOptConSettings& c)
{
    if (s.nlocBackend_->getSettings().nThreads != c.nThreads)
        throw 1;
    s.nlocBackend_->configure(c);
    s.setAlgorithm(c);
}
bool Sol__solve(Sol& s)
{
    bool better = true;
    int n = 0;
    while (better && n < s.nlocBackend_->getSettings().max_iterations)
    {
        better = s.runIteration();
        n++;
    }
    return n > 1 || better || n == 1;
}
bool Sol__runIteration(Sol& s) { return s.nlocAlgorithm_->runIteration(); }
void Sol__prepareIteration(Sol& s) { s.nlocAlgorithm_->prepareIteration(); }
bool Sol__finishIteration(Sol& s) { return s.nlocAlgorithm_->finishIteration(); }
void Sol__prepareMPCIteration(Sol& s) { s.nlocAlgorithm_->prepareMPCIteration(); }
bool Sol__finishMPCIteration(Sol& s) { return s.nlocAlgorithm_->finishMPCIteration(); }
void Sol__setInitialGuess(Sol& s, const Sol::Policy_t& g) { s.nlocBackend_->setInitialGuess(g); }
const Sol::Policy_t& Sol__getSolution(Sol& s) { return s.nlocBackend_->getSolution(); }
StateTrajectory<NX> Sol__getStateTrajectory(Sol& s) { return s.nlocBackend_->getStateTrajectory(); }
ControlTrajectory<NU> Sol__getControlTrajectory(Sol& s) { return s.nlocBackend_->getControlTrajectory(); }
const ct::core::tpl::TimeArray<double>& Sol__getTimeArray(Sol& s) { return s.nlocBackend_->getTimeArray(); }
double Sol__getTimeHorizon(Sol& s) { return s.nlocBackend_->getTimeHorizon(); }
void Sol__changeTimeHorizon(Sol& s, const double& tf) { s.nlocBackend_->changeTimeHorizon(tf); }
void Sol__changeInitialState(Sol& s, const StateVector<NX>& x) { s.nlocBackend_->changeInitialState(x); }
void Sol__changeCostFunction(Sol& s, const Sol::OptConProblem_t::CostFunctionPtr_t& c) { s.nlocBackend_->changeCostFunction(c); }
void Sol__changeNonlinearSystem(Sol& s, const Sol::OptConProblem_t::DynamicsPtr_t& d) { s.nlocBackend_->changeNonlinearSystem(d); }
void Sol__changeLinearSystem(Sol& s, const Sol::OptConProblem_t::LinearPtr_t& l) { s.nlocBackend_->changeLinearSystem(l); }
double Sol__getCost(Sol& s) { return s.nlocBackend_->getCost(); }
}}
