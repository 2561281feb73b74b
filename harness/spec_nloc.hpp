#pragma once
#include "spec.hpp"
// ------------------------------------------------------------------ NLOC: LQ approximation
namespace spec { namespace C03 {
using namespace ct::core;
using namespace ct::optcon;
using B = NLOCBackendST<NX, NU, 1, 1, double, true>;
using X = StateVector<NX>;
using U = ControlVector<NU>;
using Con = B::OptConProblem_t::ConstraintPtr_t;
using VX = Eigen::Matrix<double, Eigen::Dynamic, 1>;

// stage k: sensitivities at the nominal pair, defect as offset, Euler discretised cost derivatives
void B__executeLQApproximation(B& s, size_t th, size_t k)
{
    LQOCProblem<NX, NU>& p = *s.lqocProblem_;
    const double dt = s.settings_.dt;
    s.systemInterface_->setSubstepTrajectoryReference(s.substepsX_, s.substepsU_, th);
    s.systemInterface_->getAandB(s.x_[k], s.u_ff_[k], s.xShot_[k], (int)k, s.settings_.K_sim, p.A_[k], p.B_[k], th);
    p.b_[k] = s.d_[k];
    s.costFunctions_[th]->setCurrentStateAndControl(s.x_[k], s.u_ff_[k], dt * k);
    p.Q_[k] = dt * s.costFunctions_[th]->stateSecondDerivativeIntermediate();
    p.R_[k] = dt * s.costFunctions_[th]->controlSecondDerivativeIntermediate();
    p.P_[k] = dt * s.costFunctions_[th]->stateControlDerivativeIntermediate();
    p.qv_[k] = dt * s.costFunctions_[th]->stateDerivativeIntermediate();
    p.rv_[k] = dt * s.costFunctions_[th]->controlDerivativeIntermediate();
}
// general constraints of stage k, relative to the nominal point
void B__computeLinearizedConstraints(B& s, size_t th, size_t k)
{
    Con& c = s.generalConstraints_[th];
    if (!c)
        return;
    LQOCProblem<NX, NU>& p = *s.lqocProblem_;
    c->setCurrentStateAndControl(s.x_[k], s.u_ff_[k], s.settings_.dt * k);
    p.ng_[k] = c->getIntermediateConstraintsCount();
    if (p.ng_[k] > 0)
    {
        p.C_[k] = c->jacobianStateIntermediate();
        p.D_[k] = c->jacobianInputIntermediate();
        VX g = c->evaluateIntermediate();
        p.d_lb_[k] = c->getLowerBoundsIntermediate() - g;
        p.d_ub_[k] = c->getUpperBoundsIntermediate() - g;
    }
}
// terminal stage: unscaled terminal cost and terminal constraints, both at the terminal state
void B__initializeCostToGo(B& s)
{
    LQOCProblem<NX, NU>& p = *s.lqocProblem_;
    const int th = s.settings_.nThreads, K = s.K_;
    s.costFunctions_[th]->setCurrentStateAndControl(s.x_[K], U::Zero(), s.settings_.dt * K);
    p.Q_[K] = s.costFunctions_[th]->stateSecondDerivativeTerminal();
    p.qv_[K] = s.costFunctions_[th]->stateDerivativeTerminal();
    Con& c = s.generalConstraints_[th];
    if (!c)
        return;
    c->setCurrentStateAndControl(s.x_[K], U::Zero(), s.settings_.dt * K);
    p.ng_[K] = c->getTerminalConstraintsCount();
    if (p.ng_[K] > 0)
    {
        p.C_[K] = c->jacobianStateTerminal();
        p.D_[K] = c->jacobianInputTerminal();
        VX g = c->evaluateTerminal();
        p.d_lb_[K] = c->getLowerBoundsTerminal() - g;
        p.d_ub_[K] = c->getUpperBoundsTerminal() - g;
    }
}
void B__computeLQApproximation(B& s, size_t first, size_t last)
{
    if (last == (size_t)s.K_ - 1)
        s.initializeCostToGo();
    for (size_t k = first; k <= last; k++)
    {
        s.executeLQApproximation(s.settings_.nThreads, k);
        if (s.generalConstraints_[s.settings_.nThreads])
            s.computeLinearizedConstraints(s.settings_.nThreads, k);
    }
}
void B__setInputBoxConstraintsForLQOCProblem(B& s)
{
    Con& c = s.inputBoxConstraints_[s.settings_.nThreads];
    if (!c)
        return;
    const int n = c->getJacobianInputNonZeroCountIntermediate();
    if (n <= 0)
        return;
    Eigen::VectorXi row, col;
    c->sparsityPatternInputIntermediate(row, col);
    s.lqocProblem_->setInputBoxConstraints(n, c->getLowerBoundsIntermediate(), c->getUpperBoundsIntermediate(), col, s.u_ff_);
}
void B__setStateBoxConstraintsForLQOCProblem(B& s)
{
    Con& c = s.stateBoxConstraints_[s.settings_.nThreads];
    if (!c)
        return;
    const int n = c->getJacobianStateNonZeroCountIntermediate();
    if (n > 0)
    {
        Eigen::VectorXi row, col;
        c->sparsityPatternStateIntermediate(row, col);
        s.lqocProblem_->setIntermediateStateBoxConstraints(n, c->getLowerBoundsIntermediate(), c->getUpperBoundsIntermediate(), col, s.x_);
    }
    const int m = c->getJacobianStateNonZeroCountTerminal();
    if (m > 0)
    {
        Eigen::VectorXi row, col;
        c->sparsityPatternStateTerminal(row, col);
        s.lqocProblem_->setTerminalBoxConstraints(m, c->getLowerBoundsTerminal(), c->getUpperBoundsTerminal(), col, s.x_.back());
    }
}
void B__changeGeneralConstraints(B& s, const Con& con)
{
    if (!con)
        throw 1;
    const int th = s.settings_.nThreads;
    s.generalConstraints_.resize(th + 1);
    for (int i = 0; i < th + 1; i++)
        s.generalConstraints_[i] = Con(con->clone());
    Con& c = s.generalConstraints_[th];
    LQOCProblem<NX, NU>& p = *s.lqocProblem_;
    for (int i = 0; i < s.K_; i++)
    {
        c->setCurrentStateAndControl(s.x_[i], s.u_ff_[i], i * s.settings_.dt);
        p.ng_[i] = c->getIntermediateConstraintsCount();
        p.C_[i].resize(p.ng_[i], NX);
        p.D_[i].resize(p.ng_[i], NU);
        p.d_lb_[i].resize(p.ng_[i], 1);
        p.d_ub_[i].resize(p.ng_[i], 1);
    }
    p.ng_[s.K_] = c->getTerminalConstraintsCount();
    p.C_[s.K_].resize(p.ng_[s.K_], NX);
    p.D_[s.K_].resize(p.ng_[s.K_], NU);
    p.d_lb_[s.K_].resize(p.ng_[s.K_], 1);
    p.d_ub_[s.K_].resize(p.ng_[s.K_], 1);
    s.lqocSolver_->setProblem(s.lqocProblem_);
    if (s.iteration_ > 0 && s.settings_.lineSearchSettings.type != LineSearchSettings::TYPE::NONE)
        s.computeGeneralConstraintErrorOfTrajectory(th, s.x_, s.u_ff_, s.e_gen_norm_);
}
// ------------------------------------------------------------------ solving the LQ problem and reading it out
using ALG = NLOptConSettings::NLOCP_ALGORITHM;
void B__prepareSolveLQProblem(B& s, size_t start)
{
    s.lqpCounter_++;
    if (s.settings_.lqocp_solver == NLOptConSettings::HPIPM_SOLVER)
        return;
    if (s.settings_.lqocp_solver != NLOptConSettings::GNRICCATI_SOLVER)
        throw 1;
    s.lqocSolver_->setProblem(s.lqocProblem_);
    for (int i = s.lqocProblem_->getNumberOfStages() - 1; i >= (int)start; i--)
        s.lqocSolver_->solveSingleStage(i);
}
void B__finishSolveLQProblem(B& s, size_t end)
{
    s.lqpCounter_++;
    if (s.settings_.lqocp_solver == NLOptConSettings::HPIPM_SOLVER)
    {
        s.solveFullLQProblem();
        return;
    }
    if (s.settings_.lqocp_solver != NLOptConSettings::GNRICCATI_SOLVER)
        throw 1;
    s.lqocSolver_->setProblem(s.lqocProblem_);
    for (int i = end; i >= 0; i--)
        s.lqocSolver_->solveSingleStage(i);
    s.lqocSolver_->computeStatesAndControls();
}
void B__solveFullLQProblem(B& s)
{
    s.lqpCounter_++;
    s.lqocSolver_->setProblem(s.lqocProblem_);
    s.lqocSolver_->solve();
}
void B__extractSolution(B& s)
{
    for (size_t i = 0; i < s.L_.size(); i++)
        s.L_[i].setZero();
    s.x_ref_lqr_ = s.x_;
    const ALG a = s.settings_.nlocp_algorithm;
    if (a == ALG::GNMS || a == ALG::GNMS_M_OL || a == ALG::SS_OL)
    {
        s.lqocSolver_->computeStatesAndControls();
        s.delta_u_ff_ = s.lqocSolver_->getSolutionControl();
        s.delta_x_ = s.lqocSolver_->getSolutionState();
        for (size_t i = 0; i < s.delta_x_ref_lqr_.size(); i++)
            s.delta_x_ref_lqr_[i].setZero();
    }
    else if (a == ALG::SS_CL || a == ALG::GNMS_M_CL)
    {
        s.lqocSolver_->computeStatesAndControls();
        s.delta_u_ff_ = s.lqocSolver_->getSolutionControl();
        s.delta_x_ = s.lqocSolver_->getSolutionState();
        s.lqocSolver_->computeFeedbackMatrices();
        s.L_ = s.lqocSolver_->getSolutionFeedback();
        s.delta_x_ref_lqr_ = s.delta_x_;
    }
    else if (a == ALG::MS_ILQR)
    {
        s.lqocSolver_->computeStatesAndControls();
        s.delta_x_ = s.lqocSolver_->getSolutionState();
        s.lqocSolver_->computeFeedbackMatrices();
        s.L_ = s.lqocSolver_->getSolutionFeedback();
        s.lqocSolver_->compute_lv();
        s.delta_u_ff_ = s.lqocSolver_->get_lv();
        for (size_t i = 0; i < s.delta_x_ref_lqr_.size(); i++)
            s.delta_x_ref_lqr_[i].setZero();
    }
    else if (a == ALG::ILQR)
    {
        s.lqocSolver_->computeFeedbackMatrices();
        s.L_ = s.lqocSolver_->getSolutionFeedback();
        s.lqocSolver_->compute_lv();
        s.delta_u_ff_ = s.lqocSolver_->get_lv();
        for (size_t i = 0; i < s.delta_x_.size(); i++)
            s.delta_x_[i].setZero();
        for (size_t i = 0; i < s.delta_x_ref_lqr_.size(); i++)
            s.delta_x_ref_lqr_[i].setZero();
    }
    else
        throw 1;
}
void B__retrieveLastAffineModel(B& s, StateMatrixArray<NX>& A, StateControlMatrixArray<NX, NU>& Bm, StateVectorArray<NX>& b)
{
    A = s.lqocProblem_->A_;
    Bm = s.lqocProblem_->B_;
    b = s.lqocProblem_->b_;
}
}}
