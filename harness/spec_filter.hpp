// Reference equations for C16: state estimators.
#pragma once
#include "spec.hpp"
namespace spec { namespace C16 {
using XV = ct::core::StateVector<NX>;
using UV = ct::core::ControlVector<NU>;
using YV = ct::core::OutputVector<NY>;
using XM = ct::core::StateMatrix<NX>;
using YM = ct::core::OutputMatrix<NY>;
using YXM = ct::core::OutputStateMatrix<NY, NX>;
using T = double;
using EKF = ct::optcon::ExtendedKalmanFilter<NX, NU, NY>;
using SKF = ct::optcon::SteadyStateKalmanFilter<NX, NU, NY>;
using UKF = ct::optcon::UnscentedKalmanFilter<NX, NU, NY>;
using EST = ct::optcon::EstimatorBase<NX, NU, NY>;
using LTI = ct::optcon::LTIMeasurementModel<NY, NX>;
using CTM = ct::optcon::CTSystemModel<NX, NU>;
using IDS = ct::optcon::InputDisturbedSystem<NX, NU>;
using DSC = ct::optcon::DisturbedSystemController<NX, ND, NU>;
using Sys = ct::optcon::SystemModelBase<NX, NU>;
using Meas = ct::optcon::LinearMeasurementModel<NY, NX>;

// covariance F P F' + V (dt Q) V' at the previous estimate, then the estimate itself
const XV& E__predict(EKF& s, const UV& u, const T& dt, const T& t)
{
    XM F = s.f_->computeDerivativeState(s.x_est_, u, dt, t);
    XM V = s.f_->computeDerivativeNoise(s.x_est_, u, dt, t);
    XM P = F * s.P_ * F.transpose() + V * (dt * s.Q_) * V.transpose();
    XV x = s.f_->computeDynamics(s.x_est_, u, dt, t);
    s.P_ = P;
    s.x_est_ = x;
    return s.x_est_;
}
// K = P H' (H P H' + W R W')^-1, x += K (y - h(x)), P -= K H P
const XV& E__update(EKF& s, const YV& y, const T& dt, const T& t)
{
    YXM H = s.h_->computeDerivativeState(s.x_est_, t);
    YM W = s.h_->computeDerivativeNoise(s.x_est_, t);
    Eigen::Matrix<double, NX, NY> K = s.P_ * H.transpose() * (H * s.P_ * H.transpose() + W * s.R_ * W.transpose()).inverse();
    YV r = y - s.h_->computeMeasurement(s.x_est_, t);
    s.x_est_ += K * r;
    s.P_ = (s.P_ - K * H * s.P_).eval();
    return s.x_est_;
}
const XM& E__getCovarianceMatrix(EKF& s) { return s.P_; }
void E__ctor__mk(EKF& s, std::shared_ptr<Sys> f, std::shared_ptr<Meas> h, const XM& Q, const YM& R, const XV& x0, const XM& P0)
{
    s.f_ = f;
    s.h_ = h;
    s.x_est_ = x0;
    s.Q_ = Q;
    s.R_ = R;
    s.P_ = P0;
}
// linearisation at the previous estimate, then prediction over dt from time t
const XV& S__predict(SKF& s, const UV& u, const T& dt, const T& t)
{
    s.A_ = s.f_->computeDerivativeState(s.x_est_, u, dt, t);
    s.x_est_ = s.f_->computeDynamics(s.x_est_, u, dt, t);
    return s.x_est_;
}
// dual Riccati equation (A', H'); its gain K has the opposite sign of the filter gain
const XV& S__update(SKF& s, const YV& y, const T& dt, const T& t)
{
    YXM H = s.h_->computeDerivativeState(s.x_est_, t);
    Eigen::Matrix<double, NY, NX> K;
    ct::optcon::DARE<NX, NY> dare;
    s.P_ = dare.computeSteadyStateRiccatiMatrix(s.Q_, s.R_, s.A_.transpose(), H.transpose(), s.P_, K, false, 1e-6, s.maxDAREIterations_);
    s.x_est_ -= K.transpose() * (y - s.h_->computeMeasurement(s.x_est_, t));
    return s.x_est_;
}
void S__setMaxDAREIterations(SKF& s, size_t n) { s.maxDAREIterations_ = n; }
void S__ctor__mk(SKF& s, std::shared_ptr<Sys> f, std::shared_ptr<Meas> h, const XM& Q, const YM& R, const XV& x0, size_t n)
{
    s.f_ = f;
    s.h_ = h;
    s.x_est_ = x0;
    s.Q_ = Q;
    s.R_ = R;
    s.P_ = XM::Zero();
    s.maxDAREIterations_ = n;
}
// ---- unscented filter: 2 n + 1 sigma points
constexpr size_t NS = 2 * NX + 1;
using SX = Eigen::Matrix<double, NX, NS>;
using SY = Eigen::Matrix<double, NY, NS>;
void U__computeWeights(UKF& s)
{
    double L = NX;
    s.lambda_ = s.alpha_ * s.alpha_ * (L + s.kappa_) - L;
    s.gamma_ = std::sqrt(L + s.lambda_);
    s.sigmaWeights_m_(0) = s.lambda_ / (L + s.lambda_);
    s.sigmaWeights_c_(0) = s.lambda_ / (L + s.lambda_) + 1 - s.alpha_ * s.alpha_ + s.beta_;
    for (size_t i = 1; i < NS; i++)
        s.sigmaWeights_m_(i) = s.sigmaWeights_c_(i) = 1 / (2 * s.alpha_ * s.alpha_ * (L + s.kappa_));
}
void U__ctor__mk(UKF& s, std::shared_ptr<Sys> f, std::shared_ptr<Meas> h, const XV& x0, double a, double b, double k, const XM& P0)
{
    s.f_ = f;
    s.h_ = h;
    s.x_est_ = x0;
    s.alpha_ = a;
    s.beta_ = b;
    s.kappa_ = k;
    s.P_ = P0;
    s.computeWeights();
}
void U__ctor__set(UKF& s, std::shared_ptr<Sys> f, std::shared_ptr<Meas> h, const ct::optcon::UnscentedKalmanFilterSettings<NX>& e)
{
    s.f_ = f;
    s.h_ = h;
    s.x_est_ = e.x0;
    s.alpha_ = e.alpha;
    s.beta_ = e.beta;
    s.kappa_ = e.kappa;
    s.P_ = e.P0;
    s.computeWeights();
}
bool U__computeSigmaPoints(UKF& s)
{
    UKF::CovarianceSquareRoot<NX> llt;
    llt.compute(s.P_);
    if (llt.info() != Eigen::Success)
        return false;
    Eigen::Matrix<double, NX, NX> L = llt.matrixL().toDenseMatrix();
    for (size_t i = 0; i < NX; i++)
    {
        s.sigmaStatePoints_(i, 0) = s.x_est_(i);
        for (size_t j = 0; j < NX; j++)
        {
            s.sigmaStatePoints_(i, 1 + j) = s.x_est_(i) + s.gamma_ * L(i, j);
            s.sigmaStatePoints_(i, 1 + NX + j) = s.x_est_(i) - s.gamma_ * L(i, j);
        }
    }
    return true;
}
bool U__computeCovarianceFromSigmaPoints(UKF& s, const Eigen::Matrix<double, NX, 1>& m, const SX& p, const Eigen::Matrix<double, NX, NX>& noise, Eigen::Matrix<double, NX, NX>& cov)
{
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NX; j++)
        {
            double c = noise(i, j);
            for (size_t k = 0; k < NS; k++)
                c += s.sigmaWeights_c_(k) * (p(i, k) - m(i)) * (p(j, k) - m(j));
            cov(i, j) = c;
        }
    return true;
}
bool U__computeKalmanGain(UKF& s, const YV& y, const SY& p, const Eigen::Matrix<double, NY, NY>& Pyy, Eigen::Matrix<double, NX, NY>& K)
{
    Eigen::Matrix<double, NX, NY> Pxy;
    for (size_t i = 0; i < NX; i++)
        for (size_t j = 0; j < NY; j++)
        {
            double c = 0;
            for (size_t k = 0; k < NS; k++)
                c += s.sigmaWeights_c_(k) * (s.sigmaStatePoints_(i, k) - s.x_est_(i)) * (p(j, k) - y(j));
            Pxy(i, j) = c;
        }
    K = Pxy * Pyy.inverse();
    return true;
}
bool U__updateStateCovariance(UKF& s, const Eigen::Matrix<double, NX, NY>& K, const Eigen::Matrix<double, NY, NY>& P)
{
    s.P_ = (s.P_ - K * P * K.transpose()).eval();
    return true;
}
void U__computeSigmaPointTransition(UKF& s, const UV& u, const T& dt, const T& t)
{
    for (size_t k = 0; k < NS; k++)
        s.sigmaStatePoints_.col(k) = s.f_->computeDynamics(s.sigmaStatePoints_.col(k), u, dt, t);
}
void U__computeSigmaPointMeasurements(UKF& s, SY& p, const T& t)
{
    for (size_t k = 0; k < NS; k++)
        p.col(k) = s.h_->computeMeasurement(s.sigmaStatePoints_.col(k), t);
}
const XV U__computeStatePrediction(UKF& s, const UV& u, const T& dt, const T& t)
{
    s.computeSigmaPointTransition(u, dt, t);
    XV x = XV::Zero();
    for (size_t k = 0; k < NS; k++)
        x += s.sigmaWeights_m_(k) * s.sigmaStatePoints_.col(k);
    return x;
}
YV U__computeMeasurementPrediction(UKF& s, SY& p, const T& t)
{
    s.computeSigmaPointMeasurements(p, t);
    YV y = YV::Zero();
    for (size_t k = 0; k < NS; k++)
        y += s.sigmaWeights_m_(k) * p.col(k);
    return y;
}
const XV& U__predict(UKF& s, const UV& u, const T& dt, const T& t)
{
    if (!s.computeSigmaPoints())
        throw std::runtime_error("");
    XV x = s.computeStatePrediction(u, dt, t);
    s.x_est_ = x;
    s.template computeCovarianceFromSigmaPoints<NX>(x, s.sigmaStatePoints_, s.f_->computeDerivativeNoise(x, u, dt, t), s.P_);
    return s.x_est_;
}
const XV& U__update(UKF& s, const YV& z, const T& dt, const T& t)
{
    SY p;
    YV y = s.computeMeasurementPrediction(p, t);
    Eigen::Matrix<double, NY, NY> P;
    s.template computeCovarianceFromSigmaPoints<NY>(y, p, s.h_->computeDerivativeNoise(s.x_est_, t), P);
    Eigen::Matrix<double, NX, NY> K;
    s.computeKalmanGain(y, p, P, K);
    s.x_est_ += K * (z - y);
    s.updateStateCovariance(K, P);
    return s.x_est_;
}
// ---- estimator base
void B__setSystemModel(EST& s, std::shared_ptr<Sys> f) { s.f_ = f; }
void B__setMeasurementModel(EST& s, std::shared_ptr<Meas> h) { s.h_ = h; }
const XV& B__getEstimate(EST& s) { return s.x_est_; }
void B__setEstimate(EST& s, const XV& x) { s.x_est_ = x; }
// ---- models
YV M__computeMeasurement(LTI& s, const XV& x, const T& t)
{
    YV y = s.dHdx_ * x;
    return y;
}
YXM M__computeDerivativeState(LTI& s, const XV& x, const T& t) { return s.dHdx_; }
YM M__computeDerivativeNoise(LTI& s, const XV& x, const T& t) { return s.dHdw_; }
void M__ctor__mk(LTI& s, const YXM& C, const YM& W)
{
    s.dHdx_ = C;
    s.dHdw_ = W;
}
void M__ctor__def(LTI& s)
{
    s.dHdx_ = YXM::Identity();
    s.dHdw_ = YM::Zero();
}
// one integration step of length dt from time t under a constant input
XV C__computeDynamics(CTM& s, const XV& x, const UV& u, const T dt, T t)
{
    s.constantController_->setControl(u);
    XV r = x;
    s.integrator_.integrate_n_steps(r, t, 1, dt);
    return r;
}
XM C__computeDerivativeState(CTM& s, const XV& x, const UV& u, const T dt, T t)
{
    s.sensApprox_->setTimeDiscretization(dt);
    XM A;
    ct::core::StateControlMatrix<NX, NU> B;
    s.sensApprox_->getAandB(x, u, x, int(t / dt), 1, A, B);
    return A;
}
XM C__computeDerivativeNoise(CTM& s, const XV& x, const UV& u, const T dt, T t) { return s.dFdv_; }
// the disturbance adds to the control and is constant
void I__computeControlledDynamics(IDS& s, const ct::core::StateVector<NX + NU>& x, const T& t, const UV& u, ct::core::StateVector<NX + NU>& d)
{
    XV x0, dx;
    UV du;
    for (size_t i = 0; i < NX; i++)
        x0(i) = x(i);
    for (size_t i = 0; i < NU; i++)
        du(i) = u(i) + x(NX + i);
    s.system_->computeControlledDynamics(x0, t, du, dx);
    for (size_t i = 0; i < NX; i++)
        d(i) = dx(i);
    for (size_t i = 0; i < NU; i++)
        d(NX + i) = 0;
}
void D__computeControl(DSC& s, const ct::core::StateVector<NX + ND>& x, const T& t, UV& u)
{
    if (!s.controller_)
        throw std::runtime_error("");
    XV x0;
    for (size_t i = 0; i < NX; i++)
        x0(i) = x(i);
    s.controller_->computeControl(x0, t, u);
}
ct::core::ControlMatrix<NU> D__getDerivativeU0(DSC& s, const ct::core::StateVector<NX + ND>& x, const T t)
{
    if (!s.controller_)
        throw std::runtime_error("");
    XV x0;
    for (size_t i = 0; i < NX; i++)
        x0(i) = x(i);
    return s.controller_->getDerivativeU0(x0, t);
}
ct::core::ControlMatrix<NU> D__getDerivativeUf(DSC& s, const ct::core::StateVector<NX + ND>& x, const T t)
{
    if (!s.controller_)
        throw std::runtime_error("");
    XV x0;
    for (size_t i = 0; i < NX; i++)
        x0(i) = x(i);
    return s.controller_->getDerivativeUf(x0, t);
}
void D__setController(DSC& s, std::shared_ptr<ct::core::Controller<NX, NU>> c) { s.controller_ = c; }
} }
