// Constraint terms and containers.
#pragma once
#include "spec.hpp"
namespace spec {
using KB = ct::optcon::ConstraintBase<NX, NU>;
using BU = ct::optcon::BoxConstraintBase<NU, NX, NU>;
using BX = ct::optcon::BoxConstraintBase<NX, NX, NU>;
using KU = ct::optcon::ControlInputConstraint<NX, NU>;
using KX = ct::optcon::StateConstraint<NX, NU>;
using KT = ct::optcon::TerminalConstraint<NX, NU>;
using KO = ct::optcon::ObstacleConstraint<NX, NU>;
using CC = ct::optcon::ConstraintContainerBase<NX, NU>;
using LC = ct::optcon::LinearConstraintContainer<NX, NU>;
using CN = ct::optcon::ConstraintContainerAnalytical<NX, NU>;
using SW = ct::optcon::SwitchedLinearConstraintContainer<NX, NU>;
using EL = ct::core::tpl::Ellipsoid<double>;
using VD = Eigen::VectorXd;
using VI = Eigen::VectorXi;
using MD = Eigen::MatrixXd;

namespace C07 {
// ---- box constraints
void BX__ctor__full(BX& s, const X& lb, const X& ub)
{
    for (int i = 0; i < NX; i++)
        if (lb(i) > ub(i))
            throw std::runtime_error("bounds");
    s.lb_ = lb;
    s.ub_ = ub;
    s.constrSize_ = NX;
    s.sparsity_ = Eigen::Matrix<int, NX, 1>::Ones();
    s.sparsity_J_ = MX::Identity();
}
void BU__ctor__full(BU& s, const ct::core::StateVector<NU>& lb, const ct::core::StateVector<NU>& ub)
{
    for (int i = 0; i < NU; i++)
        if (lb(i) > ub(i))
            throw std::runtime_error("bounds");
    s.lb_ = lb;
    s.ub_ = ub;
    s.constrSize_ = NU;
    s.sparsity_ = Eigen::Matrix<int, NU, 1>::Ones();
    s.sparsity_J_ = MU::Identity();
}
size_t BX__getConstraintSize(BX& s) { return s.constrSize_; }
size_t BU__getConstraintSize(BU& s) { return s.constrSize_; }
void BX__sanityCheck(BX& s, const size_t& n, const VD& lb, const VD& ub)
{
    if (lb.rows() != n || ub.rows() != n)
        throw std::runtime_error("size");
    for (size_t i = 0; i < n; i++)
        if (lb(i) > ub(i))
            throw std::runtime_error("bounds");
}
void BX__ctor__copy(BX& s, const BX& o)
{
    s.lb_ = o.lb_;
    s.ub_ = o.ub_;
    s.name_ = o.name_;
    s.sparsity_ = o.sparsity_;
    s.sparsity_J_ = o.sparsity_J_;
    s.constrSize_ = o.constrSize_;
}
VD KU__evaluate(KU& s, const X& x, const U& u, double t) { return s.sparsity_J_ * u; }
MD KU__jacobianInput(KU& s, const X& x, const U& u, double t) { return s.sparsity_J_; }
MD KU__jacobianState(KU& s, const X& x, const U& u, double t) { return MD::Zero(s.constrSize_, NX); }
size_t KU__getNumNonZerosJacobianState(KU& s) { return 0; }
size_t KU__getNumNonZerosJacobianInput(KU& s) { return s.constrSize_; }
VD KU__jacobianInputSparse(KU& s, const X& x, const U& u, double t) { return VD::Ones(s.constrSize_); }
VD KX__evaluate(KX& s, const X& x, const U& u, double t) { return s.sparsity_J_ * x; }
MD KX__jacobianState(KX& s, const X& x, const U& u, double t) { return s.sparsity_J_; }
MD KX__jacobianInput(KX& s, const X& x, const U& u, double t) { return MD::Zero(s.constrSize_, NU); }
size_t KX__getNumNonZerosJacobianState(KX& s) { return s.constrSize_; }
size_t KX__getNumNonZerosJacobianInput(KX& s) { return 0; }
VD KX__jacobianStateSparse(KX& s, const X& x, const U& u, double t) { return VD::Ones(s.constrSize_); }
// ---- terminal constraint x - xf = 0
void KT__ctor(KT& s, const X xf)
{
    s.name_ = "Unnamed";
    s.xF_ = xf;
    s.lb_ = VD::Zero(NX);
    s.ub_ = VD::Zero(NX);
}
size_t KT__getConstraintSize(KT& s) { return NX; }
VD KT__evaluate(KT& s, const X& x, const U& u, double t) { return x - s.xF_; }
MD KT__jacobianState(KT& s, const X& x, const U& u, double t) { return MX::Identity(); }
MD KT__jacobianInput(KT& s, const X& x, const U& u, double t) { return Eigen::Matrix<double, NX, NU>::Zero(); }
size_t KT__getNumNonZerosJacobianState(KT& s) { return NX; }
size_t KT__getNumNonZerosJacobianInput(KT& s) { return 0; }
VD KT__jacobianStateSparse(KT& s, const X& x, const U& u, double t) { return X::Ones(); }
// ---- obstacle
VD KO__evaluate(KO& s, const X& x, const U& u, double t)
{
    Eigen::Vector3d p;
    s.xFun_(x, p);
    Eigen::Vector3d e = s.obstacle_->A() * (s.obstacle_->S().transpose() * (p - s.obstacle_->x0()));
    s.val_(0) = e.dot(e) - 1;
    return s.val_;
}
MD KO__jacobianState(KO& s, const X& x, const U& u, double t)
{
    Eigen::Vector3d p;
    s.xFun_(x, p);
    Eigen::Matrix<double, 3, NX> dp;
    s.dXFun_(x, dp);
    Eigen::Matrix3d AS = s.obstacle_->A() * s.obstacle_->S().transpose();
    Eigen::Vector3d e = AS * (p - s.obstacle_->x0());
    Eigen::Matrix<double, 3, NX> de = AS * dp;
    s.jac_ = 2 * (e.transpose() * de);
    return s.jac_;
}
MD KO__jacobianInput(KO& s, const X& x, const U& u, double t) { return Eigen::Matrix<double, 1, NU>::Zero(); }
size_t KO__getConstraintSize(KO& s) { return 1; }
double EL__insideEllipsoid(EL& s, const Eigen::Vector3d& x)
{
    Eigen::Vector3d e = s.A_ * (s.S_.transpose() * (x - s.x0_));
    return e.dot(e) - 1;
}
// ---- defaults of the base class: dense, row by row
size_t KB__getNumNonZerosJacobianState(KB& s) { return NX * s.getConstraintSize(); }
size_t KB__getNumNonZerosJacobianInput(KB& s) { return NU * s.getConstraintSize(); }
VD KB__getLowerBound(KB& s) { return s.lb_; }
VD KB__getUpperBound(KB& s) { return s.ub_; }
void KB__genDiagonalIndices__free(const size_t n, VI& r, VI& c)
{
    r.resize(n);
    c.resize(n);
    for (size_t i = 0; i < n; i++)
    {
        r(i) = i;
        c(i) = i;
    }
}
void KB__genSparseDiagonalIndices__free(const VI& d, VI& r, VI& c)
{
    r.resize(d.sum());
    c.resize(d.sum());
    size_t k = 0;
    for (int i = 0; i < d.rows(); i++)
        if (d(i) == 1)
        {
            r(k) = i;
            c(k) = i;
            k = k + 1;
        }
}
void KB__genBlockIndices__free(const size_t nr, const size_t nc, VI& r, VI& c)
{
    r.resize(nr * nc);
    c.resize(nr * nc);
    size_t k = 0;
    for (size_t i = 0; i < nr; i++)
        for (size_t j = 0; j < nc; j++)
        {
            r(k) = i;
            c(k) = j;
            k = k + 1;
        }
}
void KB__sparsityPatternState(KB& s, VI& r, VI& c) { KB::genBlockIndices(s.getConstraintSize(), NX, r, c); }
void KB__sparsityPatternInput(KB& s, VI& r, VI& c) { KB::genBlockIndices(s.getConstraintSize(), NU, r, c); }
VD KB__jacobianStateSparse(KB& s, const X& x, const U& u, double t)
{
    MD J = s.jacobianState(x, u, t);
    VD v(J.rows() * J.cols());
    size_t k = 0;
    for (int i = 0; i < J.rows(); i++)
        for (int j = 0; j < J.cols(); j++)
        {
            v(k) = J(i, j);
            k = k + 1;
        }
    return v;
}
VD KB__jacobianInputSparse(KB& s, const X& x, const U& u, double t)
{
    MD J = s.jacobianInput(x, u, t);
    VD v(J.rows() * J.cols());
    size_t k = 0;
    for (int i = 0; i < J.rows(); i++)
        for (int j = 0; j < J.cols(); j++)
        {
            v(k) = J(i, j);
            k = k + 1;
        }
    return v;
}
MD KB__jacobianState(KB& s, const X& x, const U& u, double t) { throw std::runtime_error("not implemented"); }
MD KB__jacobianInput(KB& s, const X& x, const U& u, double t) { throw std::runtime_error("not implemented"); }
void KB__ctor__copy(KB& s, const KB& o)
{
    s.lb_ = o.lb_;
    s.ub_ = o.ub_;
    s.name_ = o.name_;
}
// ---- selected entries of a box: row k of the Jacobian selects the k-th marked entry
using SPX = Eigen::Matrix<double, Eigen::Dynamic, NX>;
SPX BX__diagSparsityVecToSparsityMat(BX& s, const VI& sp, const size_t& n)
{
    SPX m(n, NX);
    m.setZero();
    size_t k = 0;
    for (size_t i = 0; i < NX; i++)
        if (sp(i) == 1)
        {
            m(k, i) = 1;
            k = k + 1;
        }
    return m;
}
void BX__ctor__sparse(BX& s, const VD& lb, const VD& ub, const VI& sp)
{
    s.constrSize_ = sp.sum();
    s.sanityCheck(s.constrSize_, lb, ub);
    s.lb_ = lb;
    s.ub_ = ub;
    s.sparsity_ = sp;
    s.sparsity_J_ = s.diagSparsityVecToSparsityMat(sp, s.constrSize_);
}
void BU__ctor__sparse(BU& s, const VD& lb, const VD& ub, const VI& sp)
{
    s.constrSize_ = sp.sum();
    s.sanityCheck(s.constrSize_, lb, ub);
    s.lb_ = lb;
    s.ub_ = ub;
    s.sparsity_ = sp;
    s.sparsity_J_ = s.diagSparsityVecToSparsityMat(sp, s.constrSize_);
}
void BX__sparsityPatternSparseJacobian(BX& s, const VI& sp, const size_t& n, VI& r, VI& c)
{
    KB::genSparseDiagonalIndices(sp, r, c);
    for (size_t i = 0; i < n; i++)
        r(i) = i;
}
void KU__sparsityPatternInput(KU& s, VI& r, VI& c) { s.sparsityPatternSparseJacobian(s.sparsity_, s.constrSize_, r, c); }
void KX__sparsityPatternState(KX& s, VI& r, VI& c) { s.sparsityPatternSparseJacobian(s.sparsity_, s.constrSize_, r, c); }
void KU__ctor__copy(KU& s, const KU& o)
{
    s.lb_ = o.lb_;
    s.ub_ = o.ub_;
    s.name_ = o.name_;
    s.sparsity_ = o.sparsity_;
    s.sparsity_J_ = o.sparsity_J_;
    s.constrSize_ = o.constrSize_;
}
void KX__ctor__copy(KX& s, const KX& o)
{
    s.lb_ = o.lb_;
    s.ub_ = o.ub_;
    s.name_ = o.name_;
    s.sparsity_ = o.sparsity_;
    s.sparsity_J_ = o.sparsity_J_;
    s.constrSize_ = o.constrSize_;
}
KU* KU__clone(KU& s) { return new KU(s); }
KX* KX__clone(KX& s) { return new KX(s); }
KT* KT__clone(KT& s) { return new KT(s); }
KO* KO__clone(KO& s) { return new KO(s); }
void KT__ctor__copy(KT& s, const KT& o)
{
    s.lb_ = o.lb_;
    s.ub_ = o.ub_;
    s.name_ = o.name_;
    s.xF_ = o.xF_;
}
void KO__ctor__copy(KO& s, const KO& o)
{
    s.lb_ = o.lb_;
    s.ub_ = o.ub_;
    s.name_ = o.name_;
    s.obstacle_ = o.obstacle_;
    s.xFun_ = o.xFun_;
    s.dXFun_ = o.dXFun_;
}
void KT__sparsityPatternState(KT& s, VI& r, VI& c) { KB::genDiagonalIndices(NX, r, c); }
// ---- container base
void CC__setCurrentStateAndControl(CC& s, const X& x, const U& u, const double t)
{
    s.x_ = x;
    s.u_ = u;
    s.t_ = t;
    s.update();
}
size_t CC__getConstraintsCount(CC& s) { return s.getIntermediateConstraintsCount() + s.getTerminalConstraintsCount(); }
VD CC__getLowerBoundsIntermediate(CC& s) { return s.lowerBoundsIntermediate_; }
VD CC__getUpperBoundsIntermediate(CC& s) { return s.upperBoundsIntermediate_; }
VD CC__getLowerBoundsTerminal(CC& s) { return s.lowerBoundsTerminal_; }
VD CC__getUpperBoundsTerminal(CC& s) { return s.upperBoundsTerminal_; }
VD CC__getUpperBoundsViolationIntermediate(CC& s)
{
    const VD z = VD::Zero(s.upperBoundsIntermediate_.rows());
    return (s.evaluateIntermediate() - s.upperBoundsIntermediate_).array().max(z.array());
}
VD CC__getLowerBoundsViolationIntermediate(CC& s)
{
    const VD z = VD::Zero(s.lowerBoundsIntermediate_.rows());
    return (s.evaluateIntermediate() - s.lowerBoundsIntermediate_).array().min(z.array());
}
VD CC__getUpperBoundsViolationTerminal(CC& s)
{
    const VD z = VD::Zero(s.upperBoundsTerminal_.rows());
    return (s.evaluateTerminal() - s.upperBoundsTerminal_).array().max(z.array());
}
VD CC__getLowerBoundsViolationTerminal(CC& s)
{
    const VD z = VD::Zero(s.lowerBoundsTerminal_.rows());
    return (s.evaluateTerminal() - s.lowerBoundsTerminal_).array().min(z.array());
}
VD CC__getTotalBoundsViolationIntermediate(CC& s)
{
    VD g = s.evaluateIntermediate();
    const VD z = VD::Zero(s.lowerBoundsIntermediate_.rows());
    return (g - s.lowerBoundsIntermediate_).array().min(z.array()) + (g - s.upperBoundsIntermediate_).array().max(z.array());
}
VD CC__getTotalBoundsViolationTerminal(CC& s)
{
    VD g = s.evaluateTerminal();
    const VD z = VD::Zero(s.lowerBoundsTerminal_.rows());
    return (g - s.lowerBoundsTerminal_).array().min(z.array()) + (g - s.upperBoundsTerminal_).array().max(z.array());
}
size_t LC__getJacNonZeroCount(LC& s)
{
    return s.getJacobianStateNonZeroCountIntermediate() + s.getJacobianInputNonZeroCountIntermediate() +
           s.getJacobianStateNonZeroCountTerminal() + s.getJacobianInputNonZeroCountTerminal();
}
void LC__initialize(LC& s)
{
    s.initializedIntermediate_ = s.initializeIntermediate();
    s.initializedTerminal_ = s.initializeTerminal();
}
bool LC__isInitialized(LC& s) { return s.initializedIntermediate_ && s.initializedTerminal_; }
// ---- analytical container: constraints stacked in the order added
#define STACK(NAME, FLAG, LIST, OUT, SIZE, CALL)                                        \
    VD CN__##NAME(CN& s)                                                                \
    {                                                                                   \
        if (!s.FLAG)                                                                    \
            throw std::runtime_error("not initialized");                                \
        size_t k = 0;                                                                   \
        for (size_t i = 0; i < s.LIST.size(); i++)                                      \
        {                                                                               \
            const size_t n = s.LIST[i]->SIZE();                                         \
            s.OUT.segment(k, n) = s.LIST[i]->CALL(s.x_, s.u_, s.t_);                    \
            k += n;                                                                     \
        }                                                                               \
        return s.OUT;                                                                   \
    }
#define STACKNZ(NAME, FLAG, LIST, OUT, SIZE, CALL)                                      \
    VD CN__##NAME(CN& s)                                                                \
    {                                                                                   \
        if (!s.FLAG)                                                                    \
            throw std::runtime_error("not initialized");                                \
        size_t k = 0;                                                                   \
        for (size_t i = 0; i < s.LIST.size(); i++)                                      \
        {                                                                               \
            const size_t n = s.LIST[i]->SIZE();                                         \
            if (n != 0)                                                                 \
            {                                                                           \
                s.OUT.segment(k, n) = s.LIST[i]->CALL(s.x_, s.u_, s.t_);                \
                k += n;                                                                 \
            }                                                                           \
        }                                                                               \
        return s.OUT;                                                                   \
    }
#define STACKM(NAME, FLAG, LIST, OUT, D, CALL)                                          \
    MD CN__##NAME(CN& s)                                                                \
    {                                                                                   \
        if (!s.FLAG)                                                                    \
            throw std::runtime_error("not initialized");                                \
        size_t k = 0;                                                                   \
        for (size_t i = 0; i < s.LIST.size(); i++)                                      \
        {                                                                               \
            const size_t n = s.LIST[i]->getConstraintSize();                            \
            s.OUT.block(k, 0, n, D) = s.LIST[i]->CALL(s.x_, s.u_, s.t_);                \
            k += n;                                                                     \
        }                                                                               \
        return s.OUT;                                                                   \
    }
STACK(evaluateIntermediate, initializedIntermediate_, constraintsIntermediate_, evalIntermediate_, getConstraintSize, evaluate)
STACK(evaluateTerminal, initializedTerminal_, constraintsTerminal_, evalTerminal_, getConstraintSize, evaluate)
STACKNZ(jacobianStateSparseIntermediate, initializedIntermediate_, constraintsIntermediate_, evalJacSparseStateIntermediate_,
    getNumNonZerosJacobianState, jacobianStateSparse)
STACKNZ(jacobianInputSparseIntermediate, initializedIntermediate_, constraintsIntermediate_, evalJacSparseInputIntermediate_,
    getNumNonZerosJacobianInput, jacobianInputSparse)
STACKNZ(jacobianStateSparseTerminal, initializedTerminal_, constraintsTerminal_, evalJacSparseStateTerminal_,
    getNumNonZerosJacobianState, jacobianStateSparse)
STACKNZ(jacobianInputSparseTerminal, initializedTerminal_, constraintsTerminal_, evalJacSparseInputTerminal_,
    getNumNonZerosJacobianInput, jacobianInputSparse)
STACKM(jacobianStateIntermediate, initializedIntermediate_, constraintsIntermediate_, evalJacDenseStateIntermediate_, NX, jacobianState)
STACKM(jacobianInputIntermediate, initializedIntermediate_, constraintsIntermediate_, evalJacDenseInputIntermediate_, NU, jacobianInput)
STACKM(jacobianStateTerminal, initializedTerminal_, constraintsTerminal_, evalJacDenseStateTerminal_, NX, jacobianState)
STACKM(jacobianInputTerminal, initializedTerminal_, constraintsTerminal_, evalJacDenseInputTerminal_, NU, jacobianInput)
#define COUNT(NAME, LIST, SIZE)                          \
    size_t CN__##NAME(CN& s)                             \
    {                                                    \
        size_t k = 0;                                    \
        for (size_t i = 0; i < s.LIST.size(); i++)       \
            k += s.LIST[i]->SIZE();                      \
        return k;                                        \
    }
COUNT(getIntermediateConstraintsCount, constraintsIntermediate_, getConstraintSize)
COUNT(getTerminalConstraintsCount, constraintsTerminal_, getConstraintSize)
COUNT(getJacobianStateNonZeroCountIntermediate, constraintsIntermediate_, getNumNonZerosJacobianState)
COUNT(getJacobianStateNonZeroCountTerminal, constraintsTerminal_, getNumNonZerosJacobianState)
COUNT(getJacobianInputNonZeroCountIntermediate, constraintsIntermediate_, getNumNonZerosJacobianInput)
COUNT(getJacobianInputNonZeroCountTerminal, constraintsTerminal_, getNumNonZerosJacobianInput)
#define PATTERN(NAME, FLAG, LIST, SIZE, CALL)                                           \
    void CN__##NAME(CN& s, VI& rows, VI& cols)                                          \
    {                                                                                   \
        if (!s.FLAG)                                                                    \
            throw std::runtime_error("not initialized");                                \
        VI r, c, ri, ci;                                                                \
        size_t k = 0, g = 0;                                                            \
        for (size_t i = 0; i < s.LIST.size(); i++)                                      \
        {                                                                               \
            const size_t n = s.LIST[i]->SIZE();                                         \
            if (n > 0)                                                                  \
            {                                                                           \
                s.LIST[i]->CALL(ri, ci);                                                \
                r.conservativeResize(k + n);                                            \
                r.segment(k, n) = ri.array() + g;                                       \
                c.conservativeResize(k + n);                                            \
                c.segment(k, n) = ci;                                                   \
                k += n;                                                                 \
            }                                                                           \
            g += s.LIST[i]->getConstraintSize();                                        \
        }                                                                               \
        rows = r;                                                                       \
        cols = c;                                                                       \
    }
PATTERN(sparsityPatternStateIntermediate, initializedIntermediate_, constraintsIntermediate_, getNumNonZerosJacobianState, sparsityPatternState)
PATTERN(sparsityPatternInputIntermediate, initializedIntermediate_, constraintsIntermediate_, getNumNonZerosJacobianInput, sparsityPatternInput)
PATTERN(sparsityPatternStateTerminal, initializedTerminal_, constraintsTerminal_, getNumNonZerosJacobianState, sparsityPatternState)
PATTERN(sparsityPatternInputTerminal, initializedTerminal_, constraintsTerminal_, getNumNonZerosJacobianInput, sparsityPatternInput)
void CN__addIntermediateConstraint(CN& s, std::shared_ptr<KB> c, bool verbose)
{
    s.constraintsIntermediate_.push_back(c);
    s.initializedIntermediate_ = false;
}
void CN__addTerminalConstraint(CN& s, std::shared_ptr<KB> c, bool verbose)
{
    s.constraintsTerminal_.push_back(c);
    s.initializedTerminal_ = false;
}
#define INIT(STAGE)                                                                                         \
    bool CN__initialize##STAGE(CN& s)                                                                       \
    {                                                                                                       \
        const size_t n = s.get##STAGE##ConstraintsCount();                                                  \
        if (n > 0)                                                                                          \
        {                                                                                                   \
            s.eval##STAGE##_ = VD::Zero(n);                                                                 \
            s.evalJacSparseState##STAGE##_ = VD::Zero(s.getJacobianStateNonZeroCount##STAGE());             \
            s.evalJacSparseInput##STAGE##_ = VD::Zero(s.getJacobianInputNonZeroCount##STAGE());             \
            s.evalJacDenseState##STAGE##_.resize(n, NX);                                                    \
            s.evalJacDenseState##STAGE##_.setZero();                                                        \
            s.evalJacDenseInput##STAGE##_.resize(n, NU);                                                    \
            s.evalJacDenseInput##STAGE##_.setZero();                                                        \
            s.lowerBounds##STAGE##_ = VD::Zero(n);                                                          \
            s.upperBounds##STAGE##_ = VD::Zero(n);                                                          \
            size_t k = 0;                                                                                   \
            for (size_t i = 0; i < s.constraints##STAGE##_.size(); i++)                                     \
            {                                                                                               \
                const size_t m = s.constraints##STAGE##_[i]->getConstraintSize();                           \
                s.lowerBounds##STAGE##_.segment(k, m) = s.constraints##STAGE##_[i]->getLowerBound();        \
                s.upperBounds##STAGE##_.segment(k, m) = s.constraints##STAGE##_[i]->getUpperBound();        \
                k += m;                                                                                     \
            }                                                                                               \
        }                                                                                                   \
        return true;                                                                                        \
    }
INIT(Intermediate)
INIT(Terminal)
void CC__ctor__copy(CC& s, const CC& o)
{
    s.x_ = o.x_;
    s.u_ = o.u_;
    s.t_ = o.t_;
    s.lowerBoundsIntermediate_ = o.lowerBoundsIntermediate_;
    s.lowerBoundsTerminal_ = o.lowerBoundsTerminal_;
    s.upperBoundsIntermediate_ = o.upperBoundsIntermediate_;
    s.upperBoundsTerminal_ = o.upperBoundsTerminal_;
}
void CN__ctor__copy(CN& s, const CN& o)
{
    s.x_ = o.x_;
    s.u_ = o.u_;
    s.t_ = o.t_;
    s.lowerBoundsIntermediate_ = o.lowerBoundsIntermediate_;
    s.lowerBoundsTerminal_ = o.lowerBoundsTerminal_;
    s.upperBoundsIntermediate_ = o.upperBoundsIntermediate_;
    s.upperBoundsTerminal_ = o.upperBoundsTerminal_;
    s.initializedIntermediate_ = o.initializedIntermediate_;
    s.initializedTerminal_ = o.initializedTerminal_;
    s.evalIntermediate_ = o.evalIntermediate_;
    s.evalJacSparseStateIntermediate_ = o.evalJacSparseStateIntermediate_;
    s.evalJacSparseInputIntermediate_ = o.evalJacSparseInputIntermediate_;
    s.evalJacDenseStateIntermediate_ = o.evalJacDenseStateIntermediate_;
    s.evalJacDenseInputIntermediate_ = o.evalJacDenseInputIntermediate_;
    s.evalTerminal_ = o.evalTerminal_;
    s.evalJacSparseStateTerminal_ = o.evalJacSparseStateTerminal_;
    s.evalJacSparseInputTerminal_ = o.evalJacSparseInputTerminal_;
    s.evalJacDenseStateTerminal_ = o.evalJacDenseStateTerminal_;
    s.evalJacDenseInputTerminal_ = o.evalJacDenseInputTerminal_;
    s.constraintsIntermediate_.resize(o.constraintsIntermediate_.size());
    for (size_t i = 0; i < o.constraintsIntermediate_.size(); i++)
        s.constraintsIntermediate_[i] = std::shared_ptr<KB>(o.constraintsIntermediate_[i]->clone());
    s.constraintsTerminal_.resize(o.constraintsTerminal_.size());
    for (size_t i = 0; i < o.constraintsTerminal_.size(); i++)
        s.constraintsTerminal_[i] = std::shared_ptr<KB>(o.constraintsTerminal_[i]->clone());
}
CN* CN__clone(CN& s) { return new CN(s); }
// ---- switched container
VD SW__evaluateIntermediate(SW& s) { return s.activeLinearConstraintContainer_->evaluateIntermediate(); }
VD SW__evaluateTerminal(SW& s) { return s.terminalLinearConstraintContainer_->evaluateTerminal(); }
size_t SW__getIntermediateConstraintsCount(SW& s) { return s.activeLinearConstraintContainer_->getIntermediateConstraintsCount(); }
size_t SW__getTerminalConstraintsCount(SW& s) { return s.terminalLinearConstraintContainer_->getTerminalConstraintsCount(); }
#define SWF(T, NAME)                                                                              \
    T SW__##NAME##Intermediate(SW& s) { return s.activeLinearConstraintContainer_->NAME##Intermediate(); } \
    T SW__##NAME##Terminal(SW& s) { return s.terminalLinearConstraintContainer_->NAME##Terminal(); }
SWF(VD, jacobianStateSparse)
SWF(VD, jacobianInputSparse)
SWF(MD, jacobianState)
SWF(MD, jacobianInput)
SWF(size_t, getJacobianStateNonZeroCount)
SWF(size_t, getJacobianInputNonZeroCount)
#define SWP(NAME)                                                                                                          \
    void SW__##NAME##Intermediate(SW& s, VI& r, VI& c) { s.activeLinearConstraintContainer_->NAME##Intermediate(r, c); }   \
    void SW__##NAME##Terminal(SW& s, VI& r, VI& c) { s.terminalLinearConstraintContainer_->NAME##Terminal(r, c); }
SWP(sparsityPatternState)
SWP(sparsityPatternInput)
bool SW__initializeTerminal(SW& s)
{
    s.lowerBoundsTerminal_ = s.terminalLinearConstraintContainer_->getLowerBoundsTerminal();
    s.upperBoundsTerminal_ = s.terminalLinearConstraintContainer_->getUpperBoundsTerminal();
    return true;
}
void SW__update(SW& s)
{
    s.activeLinearConstraintContainer_ = s.switchedLinearConstraintContainers_.at(s.continuousModeSequence_.getPhaseFromTime(s.t_));
    s.activeLinearConstraintContainer_->setCurrentStateAndControl(s.x_, s.u_, s.t_);
    s.terminalLinearConstraintContainer_->setCurrentStateAndControl(s.x_, s.u_, s.t_);
    s.lowerBoundsIntermediate_ = s.activeLinearConstraintContainer_->getLowerBoundsIntermediate();
    s.upperBoundsIntermediate_ = s.activeLinearConstraintContainer_->getUpperBoundsIntermediate();
}
void SW__ctor__mk(SW& s, const SW::SwitchedLinearConstraintContainers& c, const SW::ModeSequence_t& m)
{
    s.x_ = X::Zero();
    s.u_ = U::Zero();
    s.t_ = 0;
    s.initializedIntermediate_ = false;
    s.initializedTerminal_ = false;
    s.switchedLinearConstraintContainers_ = c;
    s.continuousModeSequence_ = m;
    s.activeLinearConstraintContainer_ = c.front();
    s.terminalLinearConstraintContainer_ = c.at(m.getFinalPhase());
}
bool SW__initializeIntermediate(SW& s)
{
    for (size_t i = 0; i < s.switchedLinearConstraintContainers_.size(); i++)
    {
        s.switchedLinearConstraintContainers_[i]->initialize();
        if (!s.switchedLinearConstraintContainers_[i]->isInitialized())
            return false;
    }
    return true;
}
void SW__ctor__copy(SW& s, const SW& o)
{
    s.x_ = o.x_;
    s.u_ = o.u_;
    s.t_ = o.t_;
    s.lowerBoundsIntermediate_ = o.lowerBoundsIntermediate_;
    s.lowerBoundsTerminal_ = o.lowerBoundsTerminal_;
    s.upperBoundsIntermediate_ = o.upperBoundsIntermediate_;
    s.upperBoundsTerminal_ = o.upperBoundsTerminal_;
    s.initializedIntermediate_ = o.initializedIntermediate_;
    s.initializedTerminal_ = o.initializedTerminal_;
    s.continuousModeSequence_ = o.continuousModeSequence_;
    for (size_t i = 0; i < o.switchedLinearConstraintContainers_.size(); i++)
        s.switchedLinearConstraintContainers_.emplace_back(o.switchedLinearConstraintContainers_[i]->clone());
    s.activeLinearConstraintContainer_ = s.switchedLinearConstraintContainers_.front();
    s.terminalLinearConstraintContainer_ = s.switchedLinearConstraintContainers_.at(s.continuousModeSequence_.getFinalPhase());
}
SW* SW__clone(SW& s) { return new SW(s); }
}
}
