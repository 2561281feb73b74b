#pragma once
#include "spec.hpp"
namespace spec { namespace C09 {
using namespace ct::core;
using CMS = PhaseSequence<std::size_t, double>;
using DMS = PhaseSequence<std::size_t, int>;
using SCS = SwitchedControlledSystem<NX, NU>;
using SLS = SwitchedLinearSystem<NX, NU>;
using SDS = SwitchedDiscreteControlledSystem<NX, NU>;
using SDL = SwitchedDiscreteLinearSystem<NX, NU>;
using X = StateVector<NX>;
using U = ControlVector<NU>;
using AM = StateMatrix<NX>;
using BM = StateControlMatrix<NX, NU>;
#define SEQ_(T, S) ((T).phase_schedule_.size() > 0 && (T).time_schedule_.size() == (T).phase_schedule_.size() + 1)

// phase i covers [t_i, t_{i+1}); earlier times belong to the first, later times to the last phase
template <class Seq, class Time>
size_t active(Seq& s, Time t)
{
    size_t idx = 0;
    for (size_t i = 0; i < s.phase_schedule_.size(); i++)
        if (s.time_schedule_[i] <= t)
            idx = i;
    return idx;
}
void CMS__ctor__start(CMS& s, const double& t0) { s.time_schedule_.push_back(t0); }
void CMS__addPhase(CMS& s, std::size_t p, double d)
{
    assume(s.time_schedule_.size() > 0);
    double t = s.time_schedule_[s.time_schedule_.size() - 1] + d;
    s.phase_schedule_.push_back(p);
    s.time_schedule_.push_back(t);
}
void DMS__addPhase__d(DMS& s, std::size_t p, int d)
{
    assume(s.time_schedule_.size() > 0);
    int t = s.time_schedule_[s.time_schedule_.size() - 1] + d;
    s.phase_schedule_.push_back(p);
    s.time_schedule_.push_back(t);
}
std::size_t CMS__getNumPhases(CMS& s) { return s.phase_schedule_.size(); }
std::size_t CMS__getNumSwitches(CMS& s)
{
    assume(s.phase_schedule_.size() > 0);
    return s.phase_schedule_.size() - 1;
}
double CMS__getTotalDuration(CMS& s)
{
    assume(s.time_schedule_.size() > 0);
    return s.time_schedule_[s.time_schedule_.size() - 1] - s.time_schedule_[0];
}
double CMS__getStartTimeFromIdx(CMS& s, std::size_t i) { return s.time_schedule_[i]; }
double CMS__getEndTimeFromIdx(CMS& s, std::size_t i) { return s.time_schedule_[i + 1]; }
std::size_t CMS__getPhaseFromIdx(CMS& s, std::size_t i) { return s.phase_schedule_[i]; }
std::size_t CMS__getFirstPhase(CMS& s) { return s.phase_schedule_[0]; }
std::size_t CMS__getFinalPhase(CMS& s) { return s.phase_schedule_[s.phase_schedule_.size() - 1]; }
std::size_t CMS__getIdxFromTime(CMS& s, double t)
{
    assume(SEQ_(s, ));
    return active(s, t);
}
std::size_t DMS__getIdxFromTime__d(DMS& s, int t)
{
    assume(SEQ_(s, ));
    return active(s, t);
}
std::size_t CMS__getPhaseFromTime(CMS& s, double t)
{
    assume(SEQ_(s, ));
    return s.phase_schedule_[active(s, t)];
}
SwitchEvent<std::size_t, double> CMS__getSwitchEventFromIdx(CMS& s, std::size_t i)
{
    SwitchEvent<std::size_t, double> e;
    e.pre_phase = s.phase_schedule_[i];
    e.post_phase = s.phase_schedule_[i + 1];
    e.switch_time = s.time_schedule_[i + 1];
    return e;
}
SwitchEvent<std::size_t, double> CMS__getSwitchEventFromTime(CMS& s, double t)
{
    assume(SEQ_(s, ));
    size_t i = active(s, t);
    SwitchEvent<std::size_t, double> e;
    e.pre_phase = s.phase_schedule_[i];
    e.post_phase = s.phase_schedule_[i + 1];
    e.switch_time = s.time_schedule_[i + 1];
    return e;
}
void SCS__computeControlledDynamics(SCS& s, const X& x, const double& t, const U& u, X& dx)
{
    assume(SEQ_(s.continuousModeSequence_, ));
    s.switchedSystems_[s.continuousModeSequence_.phase_schedule_[active(s.continuousModeSequence_, t)]]->computeControlledDynamics(x, t, u, dx);
}
const AM& SLS__getDerivativeState(SLS& s, const X& x, const U& u, const double t)
{
    assume(SEQ_(s.continuousModeSequence_, ));
    return s.switchedLinearSystems_[s.continuousModeSequence_.phase_schedule_[active(s.continuousModeSequence_, t)]]->getDerivativeState(x, u, t);
}
const BM& SLS__getDerivativeControl(SLS& s, const X& x, const U& u, const double t)
{
    assume(SEQ_(s.continuousModeSequence_, ));
    return s.switchedLinearSystems_[s.continuousModeSequence_.phase_schedule_[active(s.continuousModeSequence_, t)]]->getDerivativeControl(x, u, t);
}
void SDS__propagateControlledDynamics(SDS& s, const X& x, const int n, const U& u, X& xn)
{
    assume(SEQ_(s.discreteModeSequence_, ));
    s.switchedSystems_[s.discreteModeSequence_.phase_schedule_[active(s.discreteModeSequence_, n)]]->propagateControlledDynamics(x, n, u, xn);
}
void SDL__propagateControlledDynamics(SDL& s, const X& x, const int n, const U& u, X& xn)
{
    assume(SEQ_(s.discreteModeSequence_, ));
    s.switchedLinearSystems_[s.discreteModeSequence_.phase_schedule_[active(s.discreteModeSequence_, n)]]->propagateControlledDynamics(x, n, u, xn);
}
void SDL__getAandB(SDL& s, const X& x, const U& u, const X& xn, const int n, size_t sub, AM& A, BM& B)
{
    assume(SEQ_(s.discreteModeSequence_, ));
    s.switchedLinearSystems_[s.discreteModeSequence_.phase_schedule_[active(s.discreteModeSequence_, n)]]->getAandB(x, u, xn, n, sub, A, B);
}
void SCS__ctor__sw(SCS& s, const SCS::SwitchedSystems& sys, const ContinuousModeSequence& seq, const SYSTEM_TYPE& type)
{
    s.switchedSystems_ = sys;
    s.continuousModeSequence_ = seq;
    s.type_ = type;
    s.controller_ = nullptr;
}
}}
