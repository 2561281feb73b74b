// Reference equations for C17: infinite and finite horizon LQR design.
#pragma once
#include "spec.hpp"
namespace spec { namespace C17 {
using SM = Eigen::Matrix<double, NX, NX>;
using CM = Eigen::Matrix<double, NU, NU>;
using BM = Eigen::Matrix<double, NX, NU>;
using KM = Eigen::Matrix<double, NU, NX>;
using LQR = ct::optcon::LQR<NX, NU>;
using CARE = ct::optcon::CARE<NX, NU>;
using DARE = ct::optcon::DARE<NX, NU>;
using DRE = ct::optcon::DynamicRiccatiEquation<NX, NU>;
using FH = ct::optcon::FHDTLQR<NX, NU>;
using HM = Eigen::Matrix<double, 2 * NX, 2 * NX>;

// u = -K x with K = R^-1 B' P, P from the continuous-time algebraic Riccati equation
bool L__compute(LQR& s, const SM& Q, const CM& R, const SM& A, const BM& B, KM& K, bool diag, bool iter)
{
    CM Ri;
    SM P;
    bool ok = s.care_.solve(Q, R, A, B, P, diag, Ri, iter);
    K = Ri * B.transpose() * P;
    return ok;
}
// Hamiltonian matrix [A -B R^-1 B'; -Q -A']
bool Ca__solve(CARE& s, const SM& Q, const CM& R, const SM& A, const BM& B, SM& P, bool diag, CM& Ri, bool iter)
{
    if (diag)
    {
        Ri = CM::Zero();
        for (size_t i = 0; i < NU; i++)
            Ri(i, i) = 1.0 / R(i, i);
    }
    else
        Ri = R.inverse();
    HM H;
    H.topLeftCorner(NX, NX) = A;
    H.topRightCorner(NX, NX) = -(B * Ri * B.transpose());
    H.bottomLeftCorner(NX, NX) = -Q;
    H.bottomRightCorner(NX, NX) = -A.transpose();
    if (iter)
        return s.solveSchurIterative(H, P);
    return s.solveSchurDirect(H, P);
}
SM Ca__computeSteadyStateRiccatiMatrix(CARE& s, const SM& Q, const CM& R, const SM& A, const BM& B, const bool diag, const bool iter)
{
    SM P;
    CM Ri;
    s.solve(Q, R, A, B, P, diag, Ri, iter);
    return P;
}
// Newton iteration for the matrix sign W of the Hamiltonian, then [W12; W22 + I] P = -[W11 + I; W21]
bool Ca__solveSchurIterative(CARE& s, const HM& M, SM& P, double eps, int maxIter)
{
    HM W = M;
    bool done = false;
    int n = 0;
    while (!done)
    {
        if (n > maxIter)
            return false;
        HM Wn = 0.5 * (W + W.inverse());
        done = Wn.isApprox(W, eps);
        W = Wn;
        n++;
    }
    typename CARE::factor_matrix_t U, V;
    U.topRows(NX) = W.template topRightCorner<NX, NX>();
    U.bottomRows(NX) = W.template bottomRightCorner<NX, NX>() + SM::Identity();
    V.topRows(NX) = W.template topLeftCorner<NX, NX>() + SM::Identity();
    V.bottomRows(NX) = W.template bottomLeftCorner<NX, NX>();
    s.FullPivLU_.compute(U);
    P = s.FullPivLU_.solve(-V);
    return true;
}
// K = -(R + B'PB)^-1 B'PA,  P <- Q + A'PA - K'(R + B'PB)K
void Dr__iterateNaive(DRE& s, const SM& Q, const CM& R, const SM& A, const BM& B, SM& P, KM& K)
{
    CM H = R + B.transpose() * P * B;
    K = -(H.inverse() * B.transpose() * P * A);
    SM M = Q + A.transpose() * P * A - K.transpose() * H * K;
    P = (M + M.transpose()) / 2;
}
// the same with the eigenvalues of (R + B'PB) lifted to at least epsilon
void Dr__iterateRobust(DRE& s, const SM& Q, const CM& R, const SM& A, const BM& B, SM& P, KM& K)
{
    CM H = R + B.transpose() * P * B;
    H = ((H + H.transpose()) / 2).eval();
    s.eigenvalueSolver_.compute(H, true);
    CM V = s.eigenvalueSolver_.eigenvectors().real();
    Eigen::Matrix<double, NU, 1> l = s.eigenvalueSolver_.eigenvalues().real();
    CM D = CM::Zero(), Di = CM::Zero();
    for (size_t i = 0; i < NU; i++)
    {
        double d = (l(i) > 0 ? l(i) : 0) + s.epsilon_;
        D(i, i) = d;
        Di(i, i) = 1.0 / d;
    }
    CM Hc = V * D * V.transpose();
    K = -(V * Di * V.transpose() * B.transpose() * P * A);
    SM M = Q + A.transpose() * P * A - K.transpose() * Hc * K;
    P = (M + M.transpose()) / 2;
}
void Dr__ctor(DRE& s) { s.epsilon_ = 1e-5; }
// fixed point of the Riccati difference equation, within eps and maxIter steps; otherwise an exception
SM Da__computeSteadyStateRiccatiMatrix__from(DARE& s, const SM& Q, const CM& R, const SM& A, const BM& B, SM P, KM& K, bool verbose, const double eps, size_t maxIter)
{
    double diff = 1;
    size_t n = 0;
    while (diff >= eps && n < maxIter)
    {
        SM P0 = P;
        s.dynamicRDE_.iterateRobust(Q, R, A, B, P, K);
        diff = (P - P0).cwiseAbs().maxCoeff();
        if (!K.allFinite())
            throw std::runtime_error("");
        n++;
    }
    if (diff >= eps)
        throw std::runtime_error("");
    return P;
}
SM Da__computeSteadyStateRiccatiMatrix__fromQ(DARE& s, const SM& Q, const CM& R, const SM& A, const BM& B, KM& K, bool verbose, const double eps, size_t maxIter)
{
    return s.computeSteadyStateRiccatiMatrix(Q, R, A, B, Q, K, verbose, eps, maxIter);
}
using XA = FH::state_vector_array_t;
using UA = FH::control_vector_array_t;
using AA = FH::state_matrix_array_t;
using BA = FH::control_gain_matrix_array_t;
using KA = FH::control_feedback_array_t;
// Euler discretisation along the reference, each stage at its own time
void Fh__linearizeModel(FH& s, const XA& x, const UA& u, size_t N, double dt, std::shared_ptr<ct::core::LinearSystem<NX, NU>>& d, AA& A, BA& B)
{
    A.resize(N);
    B.resize(N);
    for (size_t i = 0; i < N; i++)
    {
        A[i] = SM::Identity() + d->getDerivativeState(x[i], u[i], i * dt) * dt;
        B[i] = d->getDerivativeControl(x[i], u[i], i * dt) * dt;
    }
}
void Fh__designController__AB(FH& s, const XA& x, const UA& u, const AA& A, const BA& B, double dt, KA& K, bool chk)
{
    s.solve(x, u, A, B, x.size() - 1, dt, K, chk);
}
void Fh__designController__lin(FH& s, const XA& x, const UA& u, std::shared_ptr<ct::core::LinearSystem<NX, NU>> d, double dt, KA& K, bool chk)
{
    AA A;
    BA B;
    s.linearizeModel(x, u, x.size() - 1, dt, d, A, B);
    s.solve(x, u, A, B, x.size() - 1, dt, K, chk);
}
// backward Riccati recursion from the terminal cost
void Fh__solve(FH& s, const XA& x, const UA& u, const AA& A, const BA& B, size_t N, double dt, KA& K, bool chk)
{
    if (x.size() != N + 1 || u.size() != N || A.size() != N || B.size() != N)
        throw std::runtime_error("");
    K.resize(N);
    s.costFunction_->setCurrentStateAndControl(x[N], ct::core::ControlVector<NU>::Zero(), dt * N);
    SM P = s.costFunction_->stateSecondDerivativeTerminal();
    if (chk)
    {
        Eigen::Matrix<double, -1, 1> ev = P.eigenvalues().real();
        if (ev.minCoeff() < 0)
            throw std::runtime_error("");
    }
    for (int i = N - 1; i >= 0; i--)
    {
        s.costFunction_->setCurrentStateAndControl(x[i], u[i], i * dt);
        SM Q = dt * s.costFunction_->stateSecondDerivativeIntermediate();
        CM R = dt * s.costFunction_->controlSecondDerivativeIntermediate();
        if (chk && (Q.minCoeff() < 0 || R.minCoeff() < 0 || R.diagonal().minCoeff() <= 0))
            throw std::runtime_error("");
        s.ricattiEq_.iterateRobust(Q, R, A[i], B[i], P, K[i]);
    }
}
void Fh__ctor(FH& s, std::shared_ptr<ct::optcon::CostFunctionQuadratic<NX, NU>> c) { s.costFunction_ = c; s.ricattiEq_.epsilon_ = 1e-5; }
} }
