#pragma once
#include "spec.hpp"
namespace spec { namespace C01 {
using Ric = ct::optcon::GNRiccatiSolver<NX, NU>;
using SV = Eigen::Matrix<double, NX, 1>;
using CV = Eigen::Matrix<double, NU, 1>;
using SM = Eigen::Matrix<double, NX, NX>;
using CM = Eigen::Matrix<double, NU, NU>;
using GM = Eigen::Matrix<double, NU, NX>;

// terminal cost-to-go
void Ric__initializeCostToGo(Ric& s)
{
    int N = s.lqocProblem_->K_;
    s.S_[N] = s.lqocProblem_->Q_[N];
    s.sv_[N] = s.lqocProblem_->qv_[N];
    s.smallestEigenvalue_ = std::numeric_limits<double>::infinity();
}
// S = Q + A'S+A - L'HL (symmetrised), s = q + A'(s+ + S+ b) + G' l
void Ric__computeCostToGo(Ric& s, size_t k)
{
    SM A = s.lqocProblem_->A_[k];
    SM S1 = s.S_[k + 1];
    SM M = s.lqocProblem_->Q_[k] + A.transpose() * S1 * A - s.L_[k].transpose() * s.Hi_[k] * s.L_[k];
    SV v = s.lqocProblem_->qv_[k] + A.transpose() * (s.sv_[k + 1] + S1 * s.lqocProblem_->b_[k]) + s.G_[k].transpose() * s.lv_[k];
    s.S_[k] = (M + M.transpose()) / 2;
    s.sv_[k] = v;
}
void Ric__designController(Ric& s, size_t k)
{
    SM S1 = s.S_[k + 1].template selfadjointView<Eigen::Lower>();
    SM A = s.lqocProblem_->A_[k];
    Eigen::Matrix<double, NX, NU> B = s.lqocProblem_->B_[k];
    s.gv_[k] = s.lqocProblem_->rv_[k] + B.transpose() * (s.sv_[k + 1] + S1 * s.lqocProblem_->b_[k]);
    s.G_[k] = s.lqocProblem_->P_[k] + B.transpose() * S1 * A;
    s.H_[k] = s.lqocProblem_->R_[k] + B.transpose() * S1 * B;
    if (s.settings_.fixedHessianCorrection)
    {
        CM H = s.H_[k];
        if (s.settings_.epsilon > 1e-10)
            H += s.settings_.epsilon * CM::Identity();
        s.Hi_[k] = H;
        if (s.settings_.recordSmallestEigenvalue)
        {
            s.eigenvalueSolver_.compute(H, Eigen::ComputeEigenvectors);
            CV l = s.eigenvalueSolver_.eigenvalues();
            s.smallestEigenvalue_ = std::min(s.smallestEigenvalue_, l.minCoeff());
        }
        s.Hi_inverse_[k] = -H.template selfadjointView<Eigen::Lower>().llt().solve(CM::Identity());
        CM Hinv = s.Hi_inverse_[k].template selfadjointView<Eigen::Lower>();
        s.L_[k] = Hinv * s.G_[k];
        s.lv_[k] = Hinv * s.gv_[k];
    }
    else
    {
        s.eigenvalueSolver_.compute(s.H_[k], Eigen::ComputeEigenvectors);
        CM V = s.eigenvalueSolver_.eigenvectors().real();
        CV l = s.eigenvalueSolver_.eigenvalues();
        if (s.settings_.recordSmallestEigenvalue)
            s.smallestEigenvalue_ = std::min(s.smallestEigenvalue_, l.minCoeff());
        CM D = CM::Zero(), Di = CM::Zero();
        for (size_t i = 0; i < NU; i++)
        {
            double e = std::max(l(i), s.settings_.epsilon);
            D(i, i) = e;
            Di(i, i) = -1.0 / e;
        }
        s.Hi_[k] = V * D * V.transpose();
        s.Hi_inverse_[k] = V * Di * V.transpose();
        s.L_[k] = s.Hi_inverse_[k] * s.G_[k];
        s.lv_[k] = s.Hi_inverse_[k] * s.gv_[k];
    }
}
void Ric__solveSingleStage(Ric& s, int n)
{
    if (n == s.lqocProblem_->K_ - 1)
        s.initializeCostToGo();
    s.designController(n);
    if (n > 0)
        s.computeCostToGo(n);
}
void Ric__computeStatesAndControls(Ric& s)
{
    s.x_sol_[0].setZero();
    for (int k = 0; k < s.lqocProblem_->K_; k++)
    {
        s.u_sol_[k] = s.lv_[k] + s.L_[k] * s.x_sol_[k];
        s.x_sol_[k + 1] = s.lqocProblem_->A_[k] * s.x_sol_[k] + s.lqocProblem_->B_[k] * s.u_sol_[k] + s.lqocProblem_->b_[k];
    }
}
void Ric__solve(Ric& s)
{
    for (int i = s.lqocProblem_->K_ - 1; i >= 0; i--)
        s.solveSingleStage(i);
}
double Ric__getSmallestEigenvalue(Ric& s) { return s.smallestEigenvalue_; }
void Ric__changeNumberOfStages(Ric& s, int n)
{
    if (n > 0 && n != s.N_)
    {
        s.gv_.resize(n);
        s.G_.resize(n);
        s.H_.resize(n);
        s.Hi_.resize(n);
        s.Hi_inverse_.resize(n);
        s.lv_.resize(n);
        s.L_.resize(n);
        s.u_sol_.resize(n);
        s.x_sol_.resize(n + 1);
        s.sv_.resize(n + 1);
        s.S_.resize(n + 1);
        s.N_ = n;
    }
}
void Ric__setProblem(Ric& s, std::shared_ptr<ct::optcon::LQOCProblem<NX, NU>> p)
{
    if (p->isConstrained())
        throw std::runtime_error("");
    Ric__changeNumberOfStages(s, p->K_);
    s.lqocProblem_ = p;
}
void Ric__configure(Ric& s, const ct::optcon::NLOptConSettings& settings)
{
    s.settings_ = settings;
    s.H_corrFix_ = settings.epsilon * CM::Identity();
}
}}
