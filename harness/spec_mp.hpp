// C25: the multi-threaded backend
namespace spec { namespace C25 {
using namespace ct::optcon;
using XA = ct::core::StateVectorArray<NX>;
using UA = ct::core::ControlVectorArray<NU>;
using M = NLOCBackendMP<NX, NU, 1, 1, double, true>;

// ---- the caller: one stage itself with its own instances, otherwise all workers, and waits for all stages
void M__computeLQApproximation(M& s, size_t first, size_t last)
{
    if (last == (size_t)s.K_ - 1)
        s.initializeCostToGo();
    if (first == last)
    {
        const size_t me = s.settings_.nThreads;
        s.executeLQApproximation(me, first);
        if (s.generalConstraints_[me] != nullptr)
            s.computeLinearizedConstraints(me, first);
        return;
    }
    s.KMin_ = first;
    s.KMax_ = last;
    s.kTaken_ = 0;
    s.kCompleted_ = 0;
    s.workerTask_ = M::COMPUTE_LQ_PROBLEM;
    std::unique_lock<std::mutex> l(s.kCompletedMutex_);
    s.kCompletedCondition_.wait(l, [&s] { return s.kCompleted_ > s.KMax_ - s.KMin_; });
    s.workerTask_ = M::IDLE;
}
void M__rolloutShots(M& s, size_t first, size_t last)
{
    if (first == last)
    {
        s.rolloutSingleShot(s.settings_.nThreads, first, s.u_ff_, s.x_, s.x_ref_lqr_, s.xShot_, *s.substepsX_, *s.substepsU_);
        s.computeSingleDefect(first, s.x_, s.xShot_, s.d_);
        return;
    }
    s.KMin_ = first;
    s.KMax_ = last;
    s.kTaken_ = 0;
    s.kCompleted_ = 0;
    s.workerTask_ = M::ROLLOUT_SHOTS;
    std::unique_lock<std::mutex> l(s.kCompletedMutex_);
    s.kCompletedCondition_.wait(l, [&s] { return s.kCompleted_ > s.KMax_ - s.KMin_; });
    s.workerTask_ = M::IDLE;
}

// ---- a worker: takes stage numbers until the range is exhausted, every stage with its own instances, counted when done
void M__computeLQProblemWorker(M& s, size_t th)
{
    while (true)
    {
        const size_t k = s.kTaken_;
        s.kTaken_ = k + 1;
        if (k > s.KMax_ - s.KMin_)
            return;
        s.executeLQApproximation(th, s.KMax_ - k);
        if (s.generalConstraints_[th] != nullptr)
            s.computeLinearizedConstraints(th, s.KMax_ - k);
        s.kCompleted_ = s.kCompleted_ + 1;
    }
}
void M__rolloutShotWorker(M& s, size_t th)
{
    while (true)
    {
        const size_t k = s.kTaken_;
        s.kTaken_ = k + 1;
        if (k > s.KMax_ - s.KMin_)
            return;
        const size_t shot = s.KMax_ - k;
        if (shot % (size_t)s.getNumStepsPerShot() == 0)
        {
            s.rolloutSingleShot(th, shot, s.u_ff_, s.x_, s.x_ref_lqr_, s.xShot_, *s.substepsX_, *s.substepsU_);
            s.computeSingleDefect(shot, s.x_, s.xShot_, s.d_);
        }
        s.kCompleted_ = s.kCompleted_ + 1;
    }
}
size_t M__generateUniqueProcessID(M& s, const size_t& it, const int task, const size_t count)
{
    return 10e12 * (count + 1) + 10e6 * (task + 1) + it + 1;
}
// ---- line search: every worker takes the next exponent; the largest accepted step is kept; finished when all larger steps are processed
void M__lineSearchWorker(M& s, size_t th)
{
    while (true)
    {
        const size_t e = s.alphaTaken_;
        s.alphaTaken_ = e + 1;
        if (e >= s.alphaExpMax_ || s.alphaBestFound_)
            return;
        const double alpha = s.settings_.lineSearchSettings.alpha_0 * std::pow(s.settings_.lineSearchSettings.n_alpha, e);
        const double big = std::numeric_limits<double>::max();
        double cost = big, stage = big, term = big, defect = big, box = big, gen = big;
        XA x(s.K_ + 1), shot(s.K_ + 1), d(s.K_ + 1, ct::core::StateVector<NX>::Zero());
        UA u(s.K_);
        typename M::Base::StateSubstepsPtr subX(new typename M::Base::StateSubsteps(s.K_ + 1));
        typename M::Base::ControlSubstepsPtr subU(new typename M::Base::ControlSubsteps(s.K_ + 1));
        s.executeLineSearch(th, alpha, x, shot, d, u, stage, term, defect, box, gen, *subX, *subU, &s.alphaBestFound_);
        const bool accepted = s.acceptStep(alpha, stage, term, defect, box, gen, s.lowestCostPrevious_, cost);
        if (accepted && e < s.alphaExpBest_)
        {
            if (s.alphaBestFound_)
                break;
            s.alphaExpBest_ = e;
            s.intermediateCostBest_ = stage;
            s.finalCostBest_ = term;
            s.d_norm_ = defect;
            s.e_box_norm_ = box;
            s.e_gen_norm_ = gen;
            s.lowestCost_ = cost;
            s.x_ = x;
            s.xShot_ = shot;
            s.u_ff_ = u;
            s.d_ = d;
            s.substepsX_ = subX;
            s.substepsU_ = subU;
        }
        s.alphaProcessed_[e] = 1;
        bool all = true;
        for (size_t i = 0; i < s.alphaExpBest_; i++)
            if (s.alphaProcessed_[i] != 1)
            {
                all = false;
                break;
            }
        if (all)
            s.alphaBestFound_ = true;
    }
}
// the caller: everything reset, then waits for the result; the best step, the norms of the update and the new reference follow from it
double M__performLineSearch(M& s)
{
    const size_t n = s.settings_.lineSearchSettings.maxIterations;
    s.alphaTaken_ = 0;
    s.alphaBestFound_ = false;
    s.alphaExpBest_ = n;
    s.alphaExpMax_ = n;
    s.alphaProcessed_.assign(n, 0);
    s.lowestCostPrevious_ = s.lowestCost_;
    s.workerTask_ = M::LINE_SEARCH;
    std::unique_lock<std::mutex> l(s.alphaBestFoundMutex_);
    s.alphaBestFoundCondition_.wait(l, [&s] { return (bool)s.alphaBestFound_; });
    s.workerTask_ = M::IDLE;
    double best = 0.0;
    if (s.alphaExpBest_ != s.alphaExpMax_)
        best = s.settings_.lineSearchSettings.alpha_0 * std::pow(s.settings_.lineSearchSettings.n_alpha, s.alphaExpBest_);
    s.lu_norm_ = s.template computeDiscreteArrayNorm<UA, 2>(s.u_ff_, s.u_ff_prev_);
    s.lx_norm_ = s.template computeDiscreteArrayNorm<XA, 2>(s.x_, s.x_prev_);
    s.x_prev_ = s.x_;
    s.u_ff_prev_ = s.u_ff_;
    return best;
}
void M__launchWorkerThreads(M& s)
{
    s.workersActive_ = true;
    s.workerTask_ = M::IDLE;
    for (size_t i = 0; i < (size_t)s.settings_.nThreads; i++)
        s.workerThreads_.push_back(std::thread(&M::threadWork, &s, (int)i));
}
void M__shutdownRoutine(M& s)
{
    s.workersActive_ = false;
    s.workerTask_ = M::SHUTDOWN;
    for (size_t i = 0; i < s.workerThreads_.size(); i++)
        s.workerThreads_[i].join();
}
} }
