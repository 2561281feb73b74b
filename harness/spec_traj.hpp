#pragma once
#include "spec.hpp"
namespace spec { namespace C08 {
using Vec = Eigen::Matrix<double, 3, 1>;
using Alloc = Eigen::aligned_allocator<Vec>;
using Interp = ct::core::Interpolation<Vec, Alloc>;
using Times = ct::core::tpl::TimeArray<double>;
using Arr = ct::core::DiscreteArray<Vec, Alloc>;
using SVec = ct::core::StateVector<NX>;
using SAlloc = Eigen::aligned_allocator<SVec>;
using SArr = ct::core::DiscreteArray<SVec, SAlloc>;
using Traj = ct::core::DiscreteTrajectoryBase<SVec, SAlloc, double>;

// largest i with t[i] <= q, or 0 if there is none; independent of what was asked before
int Interp__findIndex(Interp& s, const Times& t, const double& q)
{
    assume(t.size() > 0 && s.index_ >= 0);
    int idx = 0;
    for (int i = 0; i < (int)t.size(); i++)
        if (t[i] <= q)
            idx = i;
    s.index_ = idx;
    return idx;
}
int Interp__findIndex__alt(Interp& s, const Times& t, const double& q)
{
    assume(t.size() > 0 && s.index_ >= 0);
    int index = -1;
    s.index_ = std::min(s.index_, (int)t.size() - 1);
    if (q < t[s.index_])
    {
        for (int i = s.index_; i >= 0; i--)
        {
            index = i;
            if (t[i] <= q)
                break;
        }
    }
    else
        for (int i = s.index_; i < (int)t.size(); i++)
        {
            index = i;
            if (t[i] > q)
            {
                index = i - 1;
                break;
            }
        }
    if (index < 0)
        throw std::runtime_error("");
    s.index_ = index;
    return index;
}
void Interp__interpolate(Interp& s, const Times& t, const Arr& d, const double& q, Vec& out, int hint)
{
    assume(s.index_ >= 0);
    if (t.size() == 0 || d.size() == 0 || t.size() != d.size())
        throw std::runtime_error("");
    if (d.size() == 1)
    {
        out = d[0];
        return;
    }
    int i = hint;
    if (hint == -1)
        i = s.findIndex(t, q);
    else
        s.index_ = hint;
    if (q < t[0])
        out = d[0];
    else if (i == (int)t.size() - 1)
        out = d[d.size() - 1];
    else if (s.type_ == ct::core::LIN)
    {
        double h = t[i + 1] - t[i];
        out = ((t[i + 1] - q) / h) * d[i] + ((q - t[i]) / h) * d[i + 1];
    }
    else if (s.type_ == ct::core::ZOH)
        out = d[i];
    else
        throw std::runtime_error("");
}
int Interp__getGreatestLessTimeStampIndex(Interp& s) { return s.index_; }
ct::core::InterpolationType Interp__getInterpolationType(Interp& s) { return s.type_; }
void Interp__changeInterpolationType(Interp& s, const ct::core::InterpolationType& type) { s.type_ = type; }

SVec Traj__eval(Traj& s, const double& t)
{
    SVec r;
    s.interp_.interpolate(s.time_, s.data_, t, r);
    return r;
}
size_t Traj__size(Traj& s)
{
    if (s.data_.size() != s.time_.size())
        throw std::runtime_error("");
    return s.time_.size();
}
void Traj__setData(Traj& s, const SArr& d) { s.data_ = d; }
void Traj__setTime(Traj& s, const Times& t) { s.time_ = t; }
void Traj__setInterpolationType(Traj& s, const ct::core::InterpolationType& t) { s.interp_.type_ = t; }
void Traj__shiftTime(Traj& s, const double& dt)
{
    for (size_t i = 0; i < s.time_.size(); i++)
        s.time_[i] -= dt;
}
void Traj__push_back(Traj& s, const SVec& x, const double& t, const bool abs)
{
    if (abs)
        s.time_.push_back(t);
    else
        s.time_.push_back(s.time_.back() + t);
    s.data_.push_back(x);
}
void Traj__pop_back(Traj& s)
{
    s.time_.pop_back();
    s.data_.pop_back();
}
void Traj__eraseFront(Traj& s, const size_t& n, const double& dt)
{
    s.time_.erase(s.time_.begin(), s.time_.begin() + n);
    s.data_.erase(s.data_.begin(), s.data_.begin() + n);
    for (size_t i = 0; i < s.time_.size(); i++)
        s.time_[i] -= dt;
}
void Traj__clear(Traj& s)
{
    s.time_.clear();
    s.data_.clear();
}
void Traj__swapData(Traj& s, Traj& o)
{
    Times t = s.time_;
    SArr d = s.data_;
    s.time_ = o.time_;
    s.data_ = o.data_;
    o.time_ = t;
    o.data_ = d;
}
Traj& Traj__opAssign(Traj& s, const Traj& o)
{
    s.time_ = o.time_;
    s.data_ = o.data_;
    s.interp_.type_ = o.interp_.type_;
    return s;
}
double Traj__startTime(Traj& s) { return s.time_[0]; }
double Traj__finalTime(Traj& s) { return s.time_[s.time_.size() - 1]; }
double Traj__duration(Traj& s) { return s.time_[s.time_.size() - 1] - s.time_[0]; }
double Traj__getTimeFromIndex(Traj& s, const size_t& i) { return s.time_[i]; }
size_t Traj__getIndexFromTime(Traj& s, const double& t) { return s.interp_.findIndex(s.time_, t); }
void Traj__ctor__copy(Traj& s, const Traj& o)
{
    s.time_ = o.time_;
    s.data_ = o.data_;
    s.interp_.type_ = o.interp_.type_;
    s.interp_.index_ = 0;
}
void Traj__ctor__grid(Traj& s, const Times& t, const SArr& d, const ct::core::InterpolationType& type)
{
    s.time_ = t;
    s.data_ = d;
    s.interp_.type_ = type;
    s.interp_.index_ = 0;
}
void Traj__ctor__uniform(Traj& s, const SArr& d, const double& dt, const double& t0, const ct::core::InterpolationType& type)
{
    assume(d.size() >= 2);
    s.data_ = d;
    s.time_.resize(d.size());
    for (size_t i = 0; i < d.size(); i++)
        s.time_[i] = t0 + i * dt;
    s.interp_.type_ = type;
    s.interp_.index_ = 0;
}
void Traj__ctor__sub(Traj& s, Traj& o, const size_t a, const size_t b)
{
    assume(a <= b);
    s.data_.resize(b - a + 1);
    s.time_.resize(b - a + 1);
    for (size_t i = 0; i < b - a + 1; i++)
    {
        s.data_[i] = o.data_[a + i];
        s.time_[i] = o.time_[a + i];
    }
    s.interp_.type_ = o.interp_.type_;
    s.interp_.index_ = 0;
}
Arr Arr__opPlus(Arr& s, const Arr& o)
{
    if (s.size() != o.size())
        throw std::runtime_error("");
    Arr r(s.size());
    for (size_t i = 0; i < s.size(); i++)
        r[i] = s[i] + o[i];
    return r;
}
Arr Arr__opMinus(Arr& s, const Arr& o)
{
    if (s.size() != o.size())
        throw std::runtime_error("");
    Arr r(s.size());
    for (size_t i = 0; i < s.size(); i++)
        r[i] = s[i] - o[i];
    return r;
}
Arr& Arr__opPlusEq(Arr& s, const Arr& o)
{
    if (s.size() != o.size())
        throw std::runtime_error("");
    for (size_t i = 0; i < s.size(); i++)
        s[i] = s[i] + o[i];
    return s;
}
Arr& Arr__opMinusEq(Arr& s, const Arr& o)
{
    if (s.size() != o.size())
        throw std::runtime_error("");
    for (size_t i = 0; i < s.size(); i++)
        s[i] = s[i] - o[i];
    return s;
}
void Arr__eraseFront(Arr& s, const size_t n) { s.erase(s.begin(), s.begin() + n); }
void Arr__setConstant(Arr& s, const Vec& d)
{
    for (size_t i = 0; i < s.size(); i++)
        s[i] = d;
}
void Arr__addOffset(Arr& s, const Vec& o)
{
    for (size_t i = 0; i < s.size(); i++)
        s[i] += o;
}
void Arr__swap(Arr& s, Arr& o)
{
    Arr t = s;
    s = o;
    o = t;
}
void Times__ctor__uniform(Times& s, const double& dt, const size_t& n, const double& t0)
{
    assume(n >= 2);
    s.resize(n);
    for (size_t i = 0; i < n; i++)
        s[i] = t0 + i * dt;
}
void Times__ctor__fill(Times& s, size_t n, const double& v) { s.resize(n, v); }
}}
