// Model predictive control: time horizons, time keeping, policy handling, iterations.
#pragma once
#include "spec.hpp"
namespace spec {
using MTH = ct::optcon::tpl::MpcTimeHorizon<double>;
using MTK = ct::optcon::tpl::MpcTimeKeeper<double>;
using SFC = ct::core::StateFeedbackController<NX, NU>;
using SPH = ct::optcon::StateFeedbackPolicyHandler<NX, NU, double>;
using PH = ct::optcon::PolicyHandler<SFC, NX, NU, double>;
using Slv = ct::optcon::NLOptConSolver<NX, NU>;
using MPC_ = ct::optcon::MPC<Slv>;
using MST = ct::optcon::mpc_settings;
using CTR = ct::core::Controller<NX, NU>;
using TIM = ct::core::tpl::Timer<double>;
using ETM = ct::core::tpl::ExternallyDrivenTimer<double>;

namespace C15 {
using ct::optcon::MPC_MODE;
// ---- time horizon strategies
bool MTH__computeNewTimeHorizon(MTH& s, const double& since, const double& stop, double& T)
{
    double left = std::max(0.0, s.initialTimeHorizon_ - since - stop);
    double m = s.mpc_settings_.minimumTimeHorizonMpc_;
    switch (s.mpc_settings_.mpc_mode)
    {
        case MPC_MODE::FIXED_FINAL_TIME:
            T = left;
            return left == 0;
        case MPC_MODE::CONSTANT_RECEDING_HORIZON:
            T = s.initialTimeHorizon_;
            return false;
        case MPC_MODE::FIXED_FINAL_TIME_WITH_MIN_TIME_HORIZON:
            T = left > m ? left : m;
            return left <= m;
        case MPC_MODE::RECEDING_HORIZON_WITH_FIXED_FINAL_TIME:
            T = std::min(left, m);
            return T == 0;
        default:
            throw std::runtime_error("unknown mode");
    }
}
void MTH__ctor(MTH& s, const MST& m, const double& T)
{
    s.mpc_settings_ = m;
    s.initialTimeHorizon_ = T;
}
void MTH__updateSettings(MTH& s, const MST& m) { s.mpc_settings_ = m; }
void MTH__updateInitialTimeHorizon(MTH& s, const double& T) { s.initialTimeHorizon_ = T; }
// ---- time keeping
void MTK__ctor__mk(MTK& s, std::shared_ptr<MTH> h, const MST& m)
{
    s.mpc_settings_ = m;
    s.initialized_ = false;
    s.finalPointReached_ = false;
    s.lastMeasuredDelay_ = 0;
    s.maxDelayMeasured_ = 0;
    s.minDelayMeasured_ = std::numeric_limits<double>::max();
    s.summedDelay_ = 0;
    s.timeHorizonStrategy_ = h;
    s.firstRun_ = true;
}
void MTK__initialize(MTK& s)
{
    s.timer_.reset();
    s.lastSolveTimer_.reset();
    s.firstSolveTimer_.reset();
    s.ext_timer_.reset();
    s.ext_lastSolveTimer_.reset();
    s.ext_firstSolveTimer_.reset();
    s.firstRun_ = true;
    s.lastMeasuredDelay_ = 0;
    s.maxDelayMeasured_ = 0;
    s.minDelayMeasured_ = std::numeric_limits<double>::max();
    s.summedDelay_ = 0;
    s.finalPointReached_ = false;
    s.initialized_ = true;
}
void MTK__computeNewTimings(MTK& s, const double ext, const double T, double& newT, double& start, double& stop)
{
    if (!s.initialized_)
        throw std::runtime_error("not initialized");
    double last = 0, first = 0;
    if (!s.firstRun_)
    {
        if (s.mpc_settings_.useExternalTiming_)
        {
            s.ext_lastSolveTimer_.stop(ext);
            s.ext_firstSolveTimer_.stop(ext);
            last = s.ext_lastSolveTimer_.getElapsedTime();
            first = s.ext_firstSolveTimer_.getElapsedTime();
        }
        else
        {
            s.lastSolveTimer_.stop();
            s.firstSolveTimer_.stop();
            last = s.lastSolveTimer_.getElapsedTime();
            first = s.firstSolveTimer_.getElapsedTime();
        }
    }
    double delay = s.mpc_settings_.measureDelay_ ? s.mpc_settings_.delayMeasurementMultiplier_ * s.lastMeasuredDelay_
                                                 : 1e-6 * s.mpc_settings_.fixedDelayUs_;
    delay += 1e-6 * s.mpc_settings_.additionalDelayUs_;
    start = last > T ? T : last;
    stop = s.firstRun_ ? last : last + delay;
    if (stop > T)
        stop = T;
    s.finalPointReached_ = s.timeHorizonStrategy_->computeNewTimeHorizon(first, stop, newT);
}
bool MTK__finalPointReached(MTK& s) { return s.finalPointReached_; }
void MTK__updateSettings(MTK& s, const MST& m) { s.mpc_settings_ = m; }
void MTK__startDelayMeasurement(MTK& s, const double& ext)
{
    if (!s.mpc_settings_.measureDelay_)
        return;
    if (s.mpc_settings_.useExternalTiming_)
        s.ext_timer_.start(ext);
    else
        s.timer_.start();
}
void MTK__stopDelayMeasurement(MTK& s, const double& ext)
{
    const bool e = s.mpc_settings_.useExternalTiming_;
    if (s.mpc_settings_.measureDelay_)
    {
        double d;
        if (e)
        {
            s.ext_timer_.stop(ext);
            d = s.ext_timer_.getElapsedTime();
        }
        else
        {
            s.timer_.stop();
            d = s.timer_.getElapsedTime();
        }
        s.lastMeasuredDelay_ = d;
    }
    if (e)
        s.ext_lastSolveTimer_.start(ext);
    else
        s.lastSolveTimer_.start();
    const double d = s.lastMeasuredDelay_;
    if (d > s.maxDelayMeasured_)
        s.maxDelayMeasured_ = d;
    if (d < s.minDelayMeasured_)
        s.minDelayMeasured_ = d;
    s.summedDelay_ += d;
    if (d < 0)
        throw std::runtime_error("negative delay");
    if (s.firstRun_)
    {
        if (e)
            s.ext_firstSolveTimer_.start(ext);
        else
            s.firstSolveTimer_.start();
    }
    s.firstRun_ = false;
}
double MTK__timeSincePreviousSuccessfulSolve(MTK& s, const double& ext)
{
    if (s.firstRun_)
        return 0;
    if (s.mpc_settings_.useExternalTiming_)
    {
        s.ext_lastSolveTimer_.stop(ext);
        return s.ext_lastSolveTimer_.getElapsedTime();
    }
    s.lastSolveTimer_.stop();
    return s.lastSolveTimer_.getElapsedTime();
}
double MTK__timeSinceFirstSuccessfulSolve(MTK& s, const double& ext)
{
    if (s.firstRun_)
        return 0;
    if (s.mpc_settings_.useExternalTiming_)
    {
        s.ext_firstSolveTimer_.stop(ext);
        return s.ext_firstSolveTimer_.getElapsedTime();
    }
    s.firstSolveTimer_.stop();
    return s.firstSolveTimer_.getElapsedTime();
}
double MTK__getMeasuredDelay(MTK& s) { return s.lastMeasuredDelay_; }
double MTK__getMaxMeasuredDelay(MTK& s) { return s.maxDelayMeasured_; }
double MTK__getMinMeasuredDelay(MTK& s) { return s.minDelayMeasured_; }
double MTK__getSummedDelay(MTK& s) { return s.summedDelay_; }
void ETM__start(ETM& s, const double& t) { s.start_time = t; }
void ETM__stop(ETM& s, const double& t) { s.stop_time = t; }
double ETM__getElapsedTime(ETM& s) { return s.stop_time - s.start_time; }
double TIM__getElapsedTime(TIM& s)
{
    return (s.stop_time.tv_sec - s.start_time.tv_sec) + 1e-6 * (s.stop_time.tv_usec - s.start_time.tv_usec);
}
// ---- policy handling
void PH__designWarmStartingPolicy(PH& s, const double& delay, const double& T, SFC& p) { p = s.initialPolicy_; }
void PH__truncateSolutionFront(PH& s, const double& delay, SFC& p, double& eff) { eff = 0; }
void PH__setPolicy(PH& s, const SFC& p) { s.initialPolicy_ = p; }
void SPH__ctor(SPH& s, const double& dt) { s.dt_ = dt; }
void SPH__truncateSolutionFront(SPH& s, const double& delay, SFC& p, double& eff)
{
    size_t n = p.uff_.size();
    size_t k = p.uff_.getIndexFromTime(delay);
    if (k > n - 1)
        k = n - 1;
    eff = k * s.dt_;
    if (k > 0 && k < n)
    {
        p.uff_.eraseFront(k, k * s.dt_);
        p.x_ref_.eraseFront(k, k * s.dt_);
        p.K_.eraseFront(k, k * s.dt_);
    }
}
void SPH__designWarmStartingPolicy(SPH& s, const double& delay, const double& T, SFC& p)
{
    int n = p.uff_.size();
    int want = std::max(1, (int)std::lround(T / s.dt_));
    int k = p.uff_.getIndexFromTime(delay);
    k = std::min(k, n - 1);
    if (k > 0)
    {
        p.uff_.eraseFront(k, k * s.dt_);
        p.x_ref_.eraseFront(k, k * s.dt_);
        p.K_.eraseFront(k, k * s.dt_);
        n = n - k;
    }
    if (want > n)
        for (int i = 0; i < want - n; i++)
        {
            p.uff_.push_back(p.uff_.back(), s.dt_, true);
            p.x_ref_.push_back(p.x_ref_.back(), s.dt_, true);
            p.K_.push_back(p.K_.back(), s.dt_, true);
        }
    else if (want < n)
        for (int i = 0; i < n - want; i++)
        {
            p.uff_.pop_back();
            p.x_ref_.pop_back();
            p.K_.pop_back();
        }
    if (p.uff_.size() == 0)
        throw std::runtime_error("empty policy");
}
// ---- MPC
void MPC__setInitialGuess(MPC_& s, const SFC& p)
{
    s.solver_.setInitialGuess(p);
    s.policyHandler_->setPolicy(p);
    s.currentPolicy_ = p;
}
bool MPC__timeHorizonReached(MPC_& s) { return s.timeKeeper_.finalPointReached_; }
double MPC__timeSinceFirstSuccessfulSolve(MPC_& s, const double& t) { return s.timeKeeper_.timeSinceFirstSuccessfulSolve(t); }
void MPC__setTimeHorizonStrategy(MPC_& s, std::shared_ptr<MTH> h)
{
    s.timeHorizonStrategy_ = h;
    s.timeKeeper_.timeHorizonStrategy_ = h;
}
void MPC__doForwardIntegration(MPC_& s, const double& t0, const double& t1, ct::core::StateVector<NX>& x, const std::shared_ptr<CTR> c)
{
    if (!s.mpc_settings_.stateForwardIntegration_)
        return;
    if (!c)
    {
        std::shared_ptr<SFC> q(new SFC(s.currentPolicy_));
        s.integrateForward(t0, t1, x, q);
    }
    else
        s.integrateForward(t0, t1, x, c);
}
void MPC__integrateForward(MPC_& s, const double t0, const double t1, ct::core::StateVector<NX>& x, const std::shared_ptr<CTR>& c)
{
    s.dynamics_->setController(c);
    int n = (int)std::lround((t1 - t0) / s.mpc_settings_.stateForwardIntegration_dt_);
    if (n < 0)
        n = 0;
    s.forwardIntegrator_.integrate_n_steps(x, t0, n, s.mpc_settings_.stateForwardIntegration_dt_);
}
void MPC__prepareIteration(MPC_& s, const double& ext)
{
    s.runCallCounter_++;
    double T = s.solver_.getTimeHorizon();
    double newT;
    if (s.firstRun_)
        s.timeKeeper_.initialize();
    s.timeKeeper_.computeNewTimings(ext, T, newT, s.t_forward_start_, s.t_forward_stop_);
    s.solver_.changeTimeHorizon(newT);
    s.policyHandler_->designWarmStartingPolicy(s.t_forward_stop_, newT, s.currentPolicy_);
    if (s.t_forward_stop_ < s.t_forward_start_)
        throw std::runtime_error("stop before start");
    s.solver_.setInitialGuess(s.currentPolicy_);
    s.solver_.prepareMPCIteration();
}
bool MPC__finishIteration(MPC_& s, const ct::core::StateVector<NX>& x, const double ts, SFC& pol, double& pol_ts, const std::shared_ptr<CTR> c)
{
    s.timeKeeper_.startDelayMeasurement(ts);
    ct::core::StateVector<NX> x0 = x;
    if (!s.firstRun_)
        s.doForwardIntegration(s.t_forward_start_, s.t_forward_stop_, x0, c);
    s.solver_.changeInitialState(x0);
    bool ok = s.solver_.finishMPCIteration();
    double out = ts;
    if (ok)
    {
        out += s.t_forward_stop_ - s.t_forward_start_;
        s.currentPolicy_ = s.solver_.getSolution();
        double since = s.timeKeeper_.timeSincePreviousSuccessfulSolve(ts);
        if (s.mpc_settings_.postTruncation_ && !s.firstRun_ && since > s.t_forward_stop_)
        {
            double eff;
            s.policyHandler_->truncateSolutionFront(since - s.t_forward_stop_, s.currentPolicy_, eff);
            out += eff;
        }
    }
    pol = s.currentPolicy_;
    s.timeKeeper_.stopDelayMeasurement(ts);
    if (s.firstRun_)
    {
        out += s.timeKeeper_.lastMeasuredDelay_;
        s.firstRun_ = false;
    }
    pol_ts = out;
    return ok;
}
void MPC__resetMpc(MPC_& s, const double& T)
{
    s.firstRun_ = true;
    s.runCallCounter_ = 0;
    s.timeHorizonStrategy_->updateInitialTimeHorizon(T);
    s.solver_.changeTimeHorizon(T);
    s.timeKeeper_.initialize();
}
void MPC__checkSettings(MPC_& s, const MST& m)
{
    if (m.useExternalTiming_ && m.measureDelay_)
        throw std::runtime_error("contradiction");
}
void MPC__updateSettings(MPC_& s, const MST& m)
{
    if (m.useExternalTiming_ && m.measureDelay_)
        throw std::runtime_error("contradiction");
    if (m.stateForwardIntegratorType_ != s.mpc_settings_.stateForwardIntegratorType_)
        s.forwardIntegrator_.changeIntegrationType(m.stateForwardIntegratorType_);
    s.mpc_settings_ = m;
    s.timeKeeper_.mpc_settings_ = m;
    s.timeHorizonStrategy_->updateSettings(m);
}
}
}
