// Direct multiple shooting and NLP.
#include <ct/optcon/optcon.h>
constexpr size_t NX = 3, NU = 2;
#define INST2(X) template class ct::optcon::X<NX, NU>;
INST2(DmsDimensions)
INST2(DmsProblem)
INST2(DmsSolver)
INST2(OptVectorDms)
INST2(ControllerDms)
INST2(ShotContainer)
INST2(ConstraintDiscretizer)
INST2(ConstraintsContainerDms)
INST2(ContinuityConstraint)
INST2(InitStateConstraint)
INST2(CostEvaluatorFull)
INST2(CostEvaluatorSimple)
template class ct::optcon::tpl::TimeGrid<double>;
template class ct::optcon::tpl::OptVector<double>;
template class ct::optcon::tpl::Nlp<double>;
template class ct::optcon::tpl::DiscreteConstraintContainerBase<double>;
template class ct::optcon::tpl::DiscreteConstraintBase<double>;
template class ct::optcon::tpl::NlpSolver<double>;
template class ct::optcon::tpl::IpoptSolver<double>;
template class ct::optcon::ZeroOrderHoldSpliner<ct::core::ControlVector<NU>>;
template class ct::optcon::LinearSpliner<ct::core::ControlVector<NU>>;
template class ct::optcon::SensitivityIntegratorCT<NX, NU>;
template struct ct::optcon::StateObserverSettings<2, NX>;
template struct ct::optcon::SteadyStateKalmanFilterSettings<NX>;
template struct ct::optcon::ExtendedKalmanFilterSettings<NX>;
template struct ct::optcon::UnscentedKalmanFilterSettings<NX>;
template void ct::core::loadScalar<double>(const std::string&, const std::string&, double&, const std::string&);
template void ct::core::loadScalarOptional<double>(const std::string&, const std::string&, double&, const double&, const std::string&);
template void ct::core::loadMatrix<double, NX, NU>(const std::string&, const std::string&, Eigen::Matrix<double, NX, NU>&, const std::string&);
#include "spec_dms.hpp"
#include "spec_nlp.hpp"
#include "spec_settings.hpp"
