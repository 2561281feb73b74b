#pragma once
#include "spec.hpp"
// ------------------------------------------------------------------ the nonlinear program as the solver sees it
namespace spec { namespace C22 {
using namespace ct::optcon;
using VX = Eigen::VectorXd;
using VI = Eigen::VectorXi;
using Map = Eigen::Map<VX>;
using MapI = Eigen::Map<VI>;
using CMap = Eigen::Map<const VX>;
using Ov = tpl::OptVector<double>;
using Dc = tpl::DiscreteConstraintBase<double>;
using Dcc = tpl::DiscreteConstraintContainerBase<double>;
using Np = tpl::Nlp<double>;
using Ip = tpl::IpoptSolver<double>;
using Ns = tpl::NlpSolver<double>;
using Index = Ipopt::Index;

// ---- decision variables
void Ov__ctor(Ov& s, const size_t n)
{
    s.updateCount_ = 0;
    s.x_ = VX::Zero(n);
    s.xInit_ = VX::Zero(n);
    s.xLb_ = VX::Constant(n, std::numeric_limits<double>::lowest());
    s.xUb_ = VX::Constant(n, std::numeric_limits<double>::max());
    s.xMul_ = VX::Zero(n);
    s.xState_ = VI::Zero(n);
    s.zUpper_ = VX::Zero(n);
    s.zLow_ = VX::Zero(n);
}
void Ov__resizeConstraintVars(Ov& s, size_t m)
{
    s.lambda_ = VX::Zero(m);
    s.zMul_ = VX::Zero(m + 1);
    s.zState_ = VI::Zero(m + 1);
}
void Ov__reset(Ov& s)
{
    s.updateCount_ = 0;
}
void Ov__resizeOptimizationVars(Ov& s, const size_t n)
{
    s.x_.resize(n);
    s.xInit_.resize(n);
    s.xLb_.resize(n);
    s.xUb_.resize(n);
    s.zUpper_.resize(n);
    s.zLow_.resize(n);
    s.xMul_.resize(n);
    s.xState_.resize(n);
}
void Ov__setZero(Ov& s)
{
    s.x_.setZero();
    s.xInit_.setZero();
    s.lambda_.setZero();
    s.zUpper_.setZero();
    s.zLow_.setZero();
}
void Ov__setInitialGuess(Ov& s, const VX& v)
{
    s.x_ = v;
    s.xInit_ = v;
}
bool Ov__checkOptimizationVarDimension(Ov& s, const unsigned int n)
{
    return s.x_.size() == n && s.xLb_.size() == n && s.xUb_.size() == n;
}
void Ov__setBounds(Ov& s, const VX& lo, const VX& up)
{
    s.xLb_ = lo;
    s.xUb_ = up;
}
void Ov__getLowerBounds(Ov& s, Map& x)
{
    x = s.xLb_;
}
void Ov__getUpperBounds(Ov& s, Map& x)
{
    x = s.xUb_;
}
void Ov__getOptimizationMultState(Ov& s, const size_t n, Map& mul, MapI& state)
{
    mul = s.xMul_;
    state = s.xState_;
}
void Ov__getConstraintsMultState(Ov& s, const size_t m, Map& mul, MapI& state)
{
    mul = s.zMul_;
    state = s.zState_;
}
size_t Ov__size(Ov& s)
{
    return s.x_.size();
}
void Ov__getBoundMultipliers(Ov& s, size_t n, Map& low, Map& up)
{
    low = s.zLow_;
    up = s.zUpper_;
}
void Ov__getLambdaVars(Ov& s, size_t m, Map& x)
{
    x = s.lambda_;
}
void Ov__getOptimizationVars(Ov& s, size_t n, Map& x)
{
    x = s.x_;
}
void Ov__getInitialGuess(Ov& s, size_t n, Map& x)
{
    x = s.xInit_;
}
void Ov__setNewIpoptSolution(Ov& s, const CMap& x, const CMap& zL, const CMap& zU, const CMap& lambda)
{
    s.x_ = x;
    s.zLow_ = zL;
    s.zUpper_ = zU;
    s.lambda_ = lambda;
}
void Ov__setNewSnoptSolution(Ov& s, const Map& x, const Map& xMul, const MapI& xState, const Map& fMul, const MapI& fState)
{
    s.x_ = x;
    s.xMul_ = xMul;
    s.xState_ = xState;
    s.zMul_ = fMul;
    s.zState_ = fState;
}
void Ov__setOptimizationVars__map(Ov& s, const CMap& x)
{
    s.x_ = x;
    s.updateCount_ = s.updateCount_ + 1;
}
void Ov__setOptimizationVars__vec(Ov& s, const VX& x)
{
    s.x_ = x;
    s.updateCount_ = s.updateCount_ + 1;
}
size_t Ov__getUpdateCount(Ov& s)
{
    return s.updateCount_;
}

// ---- index generation
size_t Dc__genDiagonalIndices(Dc& s, const size_t col_start, const size_t n, VI& iRow, VI& jCol, const size_t at)
{
    for (size_t k = 0; k < n; k++)
    {
        iRow(at + k) = k;
        jCol(at + k) = col_start + k;
    }
    return n;
}
size_t Dc__genBlockIndices(Dc& s, const size_t col_start, const size_t rows, const size_t cols, VI& iRow, VI& jCol, const size_t at)
{
    assume((size_t)iRow.size() >= at + rows * cols && (size_t)jCol.size() >= at + rows * cols);
    size_t k = 0;
    for (size_t r = 0; r < rows; r++)
        for (size_t c = 0; c < cols; c++)
        {
            iRow(at + k) = r;
            jCol(at + k) = col_start + c;
            k++;
        }
    return rows * cols;
}

// ---- constraint container: prepared once, then every constraint in order, at the offset of the ones before it
void Dcc__evalConstraints__map(Dcc& s, Map& c)
{
    s.prepareEvaluation();
    size_t at = 0;
    for (size_t k = 0; k < s.constraints_.size(); k++)
    {
        const size_t n = s.constraints_[k]->getConstraintSize();
        c.segment(at, n) = s.constraints_[k]->eval();
        at += n;
    }
}
void Dcc__evalConstraints__vec(Dcc& s, VX& c)
{
    s.prepareEvaluation();
    size_t at = 0;
    for (size_t k = 0; k < s.constraints_.size(); k++)
    {
        const size_t n = s.constraints_[k]->getConstraintSize();
        c.segment(at, n) = s.constraints_[k]->eval();
        at += n;
    }
}
void Dcc__evalSparseJacobian(Dcc& s, Map& jac, const int nnz)
{
    s.prepareJacobianEvaluation();
    size_t at = 0;
    for (size_t k = 0; k < s.constraints_.size(); k++)
    {
        const size_t n = s.constraints_[k]->getNumNonZerosJacobian();
        jac.segment(at, n) = s.constraints_[k]->evalSparseJacobian();
        at += n;
    }
}
void Dcc__getSparsityPattern(Dcc& s, MapI& iRow, MapI& jCol, const int nnz)
{
    size_t at = 0, row = 0;
    for (size_t k = 0; k < s.constraints_.size(); k++)
    {
        const size_t n = s.constraints_[k]->getNumNonZerosJacobian();
        const size_t m = s.constraints_[k]->getConstraintSize();
        VI r, c;
        r.resize(n);
        c.resize(n);
        s.constraints_[k]->genSparsityPattern(r, c);
        iRow.segment(at, n) = r.array() + row;
        jCol.segment(at, n) = c;
        at += n;
        row += m;
    }
}
size_t Dcc__getConstraintsCount(Dcc& s)
{
    size_t n = 0;
    for (size_t k = 0; k < s.constraints_.size(); k++)
        n += s.constraints_[k]->getConstraintSize();
    return n;
}
size_t Dcc__getNonZerosJacobianCount(Dcc& s)
{
    size_t n = 0;
    for (size_t k = 0; k < s.constraints_.size(); k++)
        n += s.constraints_[k]->getNumNonZerosJacobian();
    return n;
}
void Dcc__getBounds(Dcc& s, Map& lo, Map& up)
{
    size_t at = 0;
    for (size_t k = 0; k < s.constraints_.size(); k++)
    {
        const size_t n = s.constraints_[k]->getConstraintSize();
        lo.segment(at, n) = s.constraints_[k]->getLowerBound();
        up.segment(at, n) = s.constraints_[k]->getUpperBound();
        at += n;
    }
}

// ---- the nonlinear program: delegates, and throws when a part has not been set
double Np__evaluateCostFun(Np& s)
{
    if (!s.costEvaluator_)
        throw std::runtime_error("");
    return s.costEvaluator_->eval();
}
void Np__evaluateCostGradient(Np& s, const size_t n, Map& grad)
{
    if (!s.costEvaluator_)
        throw std::runtime_error("");
    s.costEvaluator_->evalGradient(n, grad);
}
void Np__evaluateConstraints(Np& s, Map& v)
{
    if (!s.constraints_)
        throw std::runtime_error("");
    s.constraints_->evalConstraints(v);
}
void Np__evaluateConstraintJacobian(Np& s, const int n, Map& jac)
{
    if (!s.constraints_)
        throw std::runtime_error("");
    s.constraints_->evalSparseJacobian(jac, n);
}
void Np__getSparsityPatternJacobian(Np& s, const int n, MapI& iRow, MapI& jCol)
{
    if (!s.constraints_)
        throw std::runtime_error("");
    iRow.setZero();
    jCol.setZero();
    s.constraints_->getSparsityPattern(iRow, jCol, n);
}
void Np__getSparsityPatternHessian(Np& s, const int n, MapI& iRow, MapI& jCol)
{
    iRow = s.iRowHessian_;
    jCol = s.jColHessian_;
}
size_t Np__getConstraintsCount(Np& s)
{
    if (!s.constraints_)
        throw std::runtime_error("");
    return s.constraints_->getConstraintsCount();
}
size_t Np__getNonZeroJacobianCount(Np& s)
{
    if (!s.constraints_)
        throw std::runtime_error("");
    return s.constraints_->getNonZerosJacobianCount();
}
void Np__getConstraintBounds(Np& s, Map& lo, Map& up, const size_t m)
{
    if (!s.constraints_)
        throw std::runtime_error("");
    s.constraints_->getBounds(lo, up);
}
size_t Np__getVarCount(Np& s)
{
    if (!s.optVariables_)
        throw std::runtime_error("");
    return s.optVariables_->x_.size();
}
void Np__getVariableBounds(Np& s, Map& lo, Map& up, const size_t n)
{
    if (!s.optVariables_)
        throw std::runtime_error("");
    lo = s.optVariables_->xLb_;
    up = s.optVariables_->xUb_;
}
void Np__extractOptimizationVars(Np& s, const CMap& x, bool isNew)
{
    if (!s.optVariables_)
        throw std::runtime_error("");
    if (!isNew)
        return;
    s.optVariables_->x_ = x;
    s.optVariables_->updateCount_ = s.optVariables_->updateCount_ + 1;
    s.updateProblem();
}
void Np__getInitialGuess(Np& s, const size_t n, Map& x)
{
    if (!s.optVariables_)
        throw std::runtime_error("");
    x = s.optVariables_->xInit_;
}
void Np__getOptimizationMultState(Np& s, const size_t n, Map& mul, MapI& state)
{
    if (!s.optVariables_)
        throw std::runtime_error("");
    mul = s.optVariables_->xMul_;
    state = s.optVariables_->xState_;
}
void Np__getConstraintsMultState(Np& s, const size_t m, Map& mul, MapI& state)
{
    if (!s.optVariables_)
        throw std::runtime_error("");
    mul = s.optVariables_->zMul_;
    state = s.optVariables_->zState_;
}
void Np__getBoundMultipliers(Np& s, size_t n, Map& lo, Map& up)
{
    if (!s.optVariables_)
        throw std::runtime_error("");
    lo = s.optVariables_->zLow_;
    up = s.optVariables_->zUpper_;
}
void Np__getLambdaVars(Np& s, size_t m, Map& lambda)
{
    if (!s.optVariables_)
        throw std::runtime_error("");
    lambda = s.optVariables_->lambda_;
}
void Np__extractIpoptSolution(Np& s, const CMap& x, const CMap& zL, const CMap& zU, const CMap& lambda)
{
    if (!s.optVariables_)
        throw std::runtime_error("");
    s.optVariables_->x_ = x;
    s.optVariables_->zLow_ = zL;
    s.optVariables_->zUpper_ = zU;
    s.optVariables_->lambda_ = lambda;
}
void Np__extractSnoptSolution(Np& s, const Map& x, const Map& xMul, const MapI& xState, const Map& fMul, const MapI& fState)
{
    if (!s.optVariables_)
        throw std::runtime_error("");
    s.optVariables_->x_ = x;
    s.optVariables_->xMul_ = xMul;
    s.optVariables_->xState_ = xState;
    s.optVariables_->zMul_ = fMul;
    s.optVariables_->zState_ = fState;
}

// ---- the callbacks of IPOPT
// ---- solver base
void Ns__ctor__default(Ns& s)
{
    s.isInitialized_ = false;
}
void Ns__ctor__nlp(Ns& s, std::shared_ptr<Np> nlp)
{
    s.nlp_ = nlp;
    s.isInitialized_ = false;
}
void Ns__ctor__settings(Ns& s, std::shared_ptr<Np> nlp, NlpSolverSettings settings)
{
    s.nlp_ = nlp;
    s.settings_ = settings;
    s.isInitialized_ = false;
}
bool Ip__get_nlp_info(Ip& s, Index& n, Index& m, Index& nnz_jac, Index& nnz_h, Ip::IndexStyleEnum& style)
{
    n = s.nlp_->getVarCount();
    m = s.nlp_->getConstraintsCount();
    nnz_jac = s.nlp_->getNonZeroJacobianCount();
    if (s.settings_.hessian_approximation_ == "exact")
        nnz_h = s.nlp_->getNonZeroHessianCount();
    style = Ipopt::TNLP::C_STYLE;
    return true;
}
bool Ip__get_bounds_info(Ip& s, Index n, double* x_l, double* x_u, Index m, double* g_l, double* g_u)
{
    Map xl(x_l, n), xu(x_u, n), gl(g_l, m), gu(g_u, m);
    s.nlp_->getVariableBounds(xl, xu, n);
    s.nlp_->getConstraintBounds(gl, gu, m);
    return true;
}
bool Ip__get_starting_point(Ip& s, Index n, bool init_x, double* x, bool init_z, double* z_L, double* z_U, Index m, bool init_lambda, double* lambda)
{
    if (init_x)
    {
        Map v(x, n);
        s.nlp_->getInitialGuess(n, v);
    }
    if (init_z)
    {
        Map lo(z_L, n), up(z_U, n);
        s.nlp_->getBoundMultipliers(n, lo, up);
    }
    if (init_lambda)
    {
        Map v(lambda, m);
        s.nlp_->getLambdaVars(m, v);
    }
    return true;
}
bool Ip__eval_f(Ip& s, Index n, const double* x, bool new_x, double& f)
{
    CMap v(x, n);
    s.nlp_->extractOptimizationVars(v, new_x);
    f = s.nlp_->evaluateCostFun();
    return true;
}
bool Ip__eval_grad_f(Ip& s, Index n, const double* x, bool new_x, double* grad)
{
    CMap v(x, n);
    Map g(grad, n);
    s.nlp_->extractOptimizationVars(v, new_x);
    s.nlp_->evaluateCostGradient(n, g);
    return true;
}
bool Ip__eval_g(Ip& s, Index n, const double* x, bool new_x, Index m, double* g)
{
    CMap v(x, n);
    Map c(g, m);
    s.nlp_->extractOptimizationVars(v, new_x);
    s.nlp_->evaluateConstraints(c);
    return true;
}
bool Ip__eval_jac_g__pattern(Ip& s, Index n, const double* null_x, bool new_x, Index m, Index nnz, Index* iRow, Index* jCol, double* null_values)
{
    MapI r(iRow, nnz), c(jCol, nnz);
    s.nlp_->getSparsityPatternJacobian(nnz, r, c);
    return true;
}
bool Ip__eval_jac_g__values(Ip& s, Index n, const double* x, bool new_x, Index m, Index nnz, Index* null_iRow, Index* null_jCol, double* values)
{
    assume(values != nullptr);
    CMap v(x, n);
    Map g(values, nnz);
    s.nlp_->extractOptimizationVars(v, new_x);
    s.nlp_->evaluateConstraintJacobian(nnz, g);
    return true;
}
bool Ip__eval_h__pattern(Ip& s, Index n, const double* null_x, bool new_x, double factor, Index m, const double* null_lambda, bool new_lambda, Index nnz, Index* iRow, Index* jCol, double* null_values)
{
    MapI r(iRow, nnz), c(jCol, nnz);
    s.nlp_->getSparsityPatternHessian(nnz, r, c);
    return true;
}
bool Ip__eval_h__values(Ip& s, Index n, const double* x, bool new_x, double factor, Index m, const double* lambda, bool new_lambda, Index nnz, Index* null_iRow, Index* null_jCol, double* values)
{
    assume(values != nullptr);
    CMap v(x, n), l(lambda, m);
    Map h(values, nnz);
    s.nlp_->extractOptimizationVars(v, new_x);
    s.nlp_->evaluateHessian(nnz, h, factor, l);
    return true;
}
void Ip__finalize_solution(Ip& s, Ipopt::SolverReturn status, Index n, const double* x, const double* z_L, const double* z_U, Index m, const double* g, const double* lambda, double f, const Ipopt::IpoptData* data, Ipopt::IpoptCalculatedQuantities* cq)
{
    CMap v(x, n), lo(z_L, n), up(z_U, n), l(lambda, m);
    s.nlp_->extractIpoptSolution(v, lo, up, l);
}
} }
