// LQR, Riccati, filters.
#include <ct/optcon/optcon.h>
constexpr size_t NX = 3, NU = 2, NY = 4, ND = 1;
#define INST2(X) template class ct::optcon::X<NX, NU>;
INST2(LQR)
INST2(CARE)
INST2(DARE)
INST2(FHDTLQR)
INST2(DynamicRiccatiEquation)
// (the settings constructors of two filters and the copy constructor of the base class do not compile)
template <typename F>
void useFilter(F& f)
{
    typename F::control_vector_t u;
    typename F::output_vector_t y;
    double t = 0;
    f.predict(u, t, t);
    f.update(y, t, t);
    f.setSystemModel(nullptr);
    f.setMeasurementModel(nullptr);
    f.setEstimate(f.getEstimate());
}
void useFilters(std::shared_ptr<ct::optcon::SystemModelBase<NX, NU>> f,
    std::shared_ptr<ct::optcon::LinearMeasurementModel<NY, NX>> h,
    ct::core::StateMatrix<NX> Q,
    ct::core::OutputMatrix<NY> R,
    ct::core::StateVector<NX> x)
{
    ct::optcon::ExtendedKalmanFilter<NX, NU, NY> e(f, h, Q, R, x, Q);
    useFilter(e);
    e.getCovarianceMatrix();
    ct::optcon::SteadyStateKalmanFilter<NX, NU, NY> s(f, h, Q, R, x);
    useFilter(s);
    s.setMaxDAREIterations(1);
    ct::optcon::UnscentedKalmanFilter<NX, NU, NY> u(f, h, x, 1, 2, 0, Q);
    useFilter(u);
    ct::optcon::UnscentedKalmanFilter<NX, NU, NY> v(f, h, ct::optcon::UnscentedKalmanFilterSettings<NX>());
}
template class ct::optcon::LTIMeasurementModel<NY, NX>;
template class ct::optcon::CTSystemModel<NX, NU>;
template class ct::optcon::DisturbedSystem<NX, ND, NU>;
template class ct::optcon::InputDisturbedSystem<NX, NU>;
template class ct::optcon::DisturbedSystemController<NX, ND, NU>;
template struct ct::optcon::ExtendedKalmanFilterSettings<NX>;
template struct ct::optcon::UnscentedKalmanFilterSettings<NX>;
template struct ct::optcon::SteadyStateKalmanFilterSettings<NX>;
#include "spec_lqr.hpp"
#include "spec_filter.hpp"
