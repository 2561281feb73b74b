#pragma once
#include "spec.hpp"
// ------------------------------------------------------------------ the LQ problem container
namespace spec { namespace C02 {
using namespace ct::core;
using namespace ct::optcon;
using P = LQOCProblem<NX, NU>;
using V = P::constr_vec_t;
using VI = Eigen::VectorXi;
using X = StateVector<NX>;
using U = ControlVector<NU>;

void P__ctor(P& s, int N) { s.changeNumStages(N); }
int P__getNumberOfStages(P& s) { return s.K_; }
void P__changeNumStages(P& s, int N)
{
    s.K_ = N;
    // N stages, plus the terminal one for whatever depends on the state alone
    s.A_.resize(N);
    s.B_.resize(N);
    s.b_.resize(N + 1);
    s.q_.resize(N + 1);
    s.qv_.resize(N + 1);
    s.Q_.resize(N + 1);
    s.rv_.resize(N);
    s.R_.resize(N);
    s.P_.resize(N);
    s.u_lb_.resize(N);
    s.u_ub_.resize(N);
    s.u_I_.resize(N);
    s.nbu_.resize(N);
    s.x_lb_.resize(N + 1);
    s.x_ub_.resize(N + 1);
    s.x_I_.resize(N + 1);
    s.nbx_.resize(N + 1);
    s.ng_.resize(N + 1);
    s.d_lb_.resize(N + 1);
    s.d_ub_.resize(N + 1);
    s.C_.resize(N + 1);
    s.D_.resize(N + 1);
}
void P__setZero(P& s, const int& n)
{
    for (size_t i = 0; i < s.A_.size(); i++)
        s.A_[i].setZero();
    for (size_t i = 0; i < s.B_.size(); i++)
        s.B_[i].setZero();
    for (size_t i = 0; i < s.b_.size(); i++)
        s.b_[i].setZero();
    for (size_t i = 0; i < s.P_.size(); i++)
        s.P_[i].setZero();
    for (size_t i = 0; i < s.Q_.size(); i++)
        s.Q_[i].setZero();
    for (size_t i = 0; i < s.qv_.size(); i++)
        s.qv_[i].setZero();
    for (size_t i = 0; i < s.rv_.size(); i++)
        s.rv_[i].setZero();
    for (size_t i = 0; i < s.R_.size(); i++)
        s.R_[i].setZero();
    for (size_t i = 0; i < s.q_.size(); i++)
        s.q_[i] = 0.0;
    for (size_t i = 0; i < s.nbx_.size(); i++)
        s.nbx_[i] = 0;
    for (size_t i = 0; i < s.nbu_.size(); i++)
        s.nbu_[i] = 0;
    for (size_t i = 0; i < s.ng_.size(); i++)
        s.ng_[i] = n;
    for (size_t i = 0; i < s.ng_.size(); i++)
    {
        s.d_lb_[i] = V::Zero(n, 1);
        s.d_ub_[i] = V::Zero(n, 1);
        s.C_[i] = V::Zero(n, NX);
        s.D_[i] = V::Zero(n, NU);
    }
}
void P__setInputBoxConstraint(P& s, const int k, const int n, const V& lb, const V& ub, const VI& sp, const U& un)
{
    if (lb.rows() != ub.rows() || lb.size() != n || sp.rows() != n || sp(sp.rows() - 1) > (int)NU - 1)
        throw 1;
    if (k >= s.K_)
        throw 1;
    s.nbu_[k] = n;
    for (int i = 0; i < n; i++)
    {
        s.u_I_[k](i) = sp(i);
        s.u_lb_[k](i) = lb(i) - un(sp(i));
        s.u_ub_[k](i) = ub(i) - un(sp(i));
    }
}
void P__setIntermediateStateBoxConstraint(P& s, const int k, const int n, const V& lb, const V& ub, const VI& sp, const X& xn)
{
    if (lb.rows() != ub.rows() || lb.size() != n || sp.rows() != n || sp(sp.rows() - 1) > (int)NX - 1)
        throw 1;
    if (k >= s.K_)
        throw 1;
    s.nbx_[k] = n;
    for (int i = 0; i < n; i++)
    {
        s.x_I_[k](i) = sp(i);
        s.x_lb_[k](i) = lb(i) - xn(sp(i));
        s.x_ub_[k](i) = ub(i) - xn(sp(i));
    }
}
void P__setTerminalBoxConstraints(P& s, const int n, const V& lb, const V& ub, const VI& sp, const X& xn)
{
    if (n <= 0)
        return;
    if (lb.rows() != ub.rows() || lb.size() != n || sp.rows() != n || sp(sp.rows() - 1) > (int)NX - 1)
        throw 1;
    const int k = s.K_;
    s.nbx_[k] = n;
    for (int i = 0; i < n; i++)
    {
        s.x_I_[k](i) = sp(i);
        s.x_lb_[k](i) = lb(i) - xn(sp(i));
        s.x_ub_[k](i) = ub(i) - xn(sp(i));
    }
}
void P__setInputBoxConstraints(P& s, const int n, const V& lb, const V& ub, const VI& sp, const ControlVectorArray<NU>& un)
{
    for (int i = 0; i < s.K_; i++)
        s.setInputBoxConstraint(i, n, lb, ub, sp, un[i]);
}
void P__setIntermediateStateBoxConstraints(P& s, const int n, const V& lb, const V& ub, const VI& sp, const StateVectorArray<NX>& xn)
{
    for (int i = 0; i < s.K_; i++)
        s.setIntermediateStateBoxConstraint(i, n, lb, ub, sp, xn[i]);
}
void P__setGeneralConstraints(P& s, const V& lb, const V& ub, const V& C, const V& D)
{
    if (lb.size() != ub.size() || C.rows() != D.rows() || lb.size() != C.rows())
        throw 1;
    for (size_t i = 0; i < s.ng_.size(); i++)
        s.ng_[i] = lb.rows();
    for (size_t i = 0; i < s.d_lb_.size(); i++)
        s.d_lb_[i] = lb;
    for (size_t i = 0; i < s.d_ub_.size(); i++)
        s.d_ub_[i] = ub;
    for (size_t i = 0; i < s.C_.size(); i++)
        s.C_[i] = C;
    for (size_t i = 0; i < s.D_.size(); i++)
        s.D_[i] = D;
}
bool anyPositive(const std::vector<int>& v)
{
    int n = 0;
    for (size_t i = 0; i < v.size(); i++)
        n += v[i];
    return n > 0;
}
bool P__isInputBoxConstrained(P& s) { return anyPositive(s.nbu_); }
bool P__isStateBoxConstrained(P& s) { return anyPositive(s.nbx_); }
bool P__isGeneralConstrained(P& s) { return anyPositive(s.ng_); }
bool P__isConstrained(P& s) { return anyPositive(s.nbu_) || anyPositive(s.nbx_) || anyPositive(s.ng_); }
// all stages get the Euler discretised cost and the system matrices at the origin; the terminal cost is not scaled
void P__setFromTimeInvariantLinearQuadraticProblem(P& s, DiscreteLinearSystem<NX, NU>& sys, CostFunctionQuadratic<NX, NU>& c, const X& off, const double dt)
{
    // sized by changeNumStages
    given(s.A_.size(), s.K_);
    given(s.B_.size(), s.K_);
    given(s.P_.size(), s.K_);
    given(s.R_.size(), s.K_);
    given(s.rv_.size(), s.K_);
    given(s.b_.size(), s.K_ + 1);
    given(s.Q_.size(), s.K_ + 1);
    given(s.qv_.size(), s.K_ + 1);
    s.setZero();
    X x0 = X::Zero();
    U u0 = U::Zero();
    StateMatrix<NX> A;
    StateControlMatrix<NX, NU> B;
    sys.getAandB(x0, u0, 0, A, B);
    c.setCurrentStateAndControl(x0, u0, 0);
    s.A_.resize(s.K_);
    s.B_.resize(s.K_);
    s.b_.resize(s.K_ + 1);
    s.Q_.resize(s.K_ + 1);
    s.qv_.resize(s.K_ + 1);
    s.P_.resize(s.K_);
    s.R_.resize(s.K_);
    s.rv_.resize(s.K_);
    for (int i = 0; i < s.K_; i++)
    {
        s.A_[i] = A;
        s.B_[i] = B;
        s.b_[i] = off;
        s.Q_[i] = dt * c.stateSecondDerivativeIntermediate();
        s.P_[i] = dt * c.stateControlDerivativeIntermediate();
        s.R_[i] = dt * c.controlSecondDerivativeIntermediate();
        s.qv_[i] = dt * c.stateDerivativeIntermediate();
        s.rv_[i] = dt * c.controlDerivativeIntermediate();
    }
    s.b_[s.K_] = off;
    s.Q_[s.K_] = c.stateSecondDerivativeTerminal();
    s.qv_[s.K_] = c.stateDerivativeTerminal();
}
// the same, in the shape of array fills
void P__setFromTimeInvariantLinearQuadraticProblem__alt(P& s, DiscreteLinearSystem<NX, NU>& sys, CostFunctionQuadratic<NX, NU>& c, const X& off, const double dt)
{
    // sized by changeNumStages
    given(s.A_.size(), s.K_);
    given(s.B_.size(), s.K_);
    given(s.P_.size(), s.K_);
    given(s.R_.size(), s.K_);
    given(s.rv_.size(), s.K_);
    given(s.b_.size(), s.K_ + 1);
    given(s.Q_.size(), s.K_ + 1);
    given(s.qv_.size(), s.K_ + 1);
    s.setZero();
    X x0 = X::Zero();
    U u0 = U::Zero();
    StateMatrix<NX> A;
    StateControlMatrix<NX, NU> B;
    sys.getAandB(x0, u0, 0, A, B);
    c.setCurrentStateAndControl(x0, u0, 0);
    s.A_ = StateMatrixArray<NX>(s.K_, A);
    s.B_ = StateControlMatrixArray<NX, NU>(s.K_, B);
    s.b_ = StateVectorArray<NX>(s.K_ + 1, off);
    s.Q_ = StateMatrixArray<NX>(s.K_ + 1, c.stateSecondDerivativeIntermediate() * dt);
    s.P_ = FeedbackArray<NX, NU>(s.K_, c.stateControlDerivativeIntermediate() * dt);
    s.R_ = ControlMatrixArray<NU>(s.K_, c.controlSecondDerivativeIntermediate() * dt);
    s.qv_ = StateVectorArray<NX>(s.K_ + 1, c.stateDerivativeIntermediate() * dt);
    s.rv_ = ControlVectorArray<NU>(s.K_, c.controlDerivativeIntermediate() * dt);
    s.Q_[s.K_] = c.stateSecondDerivativeTerminal();
    s.qv_[s.K_] = c.stateDerivativeTerminal();
}
}}
