// Cost functions, cost terms, constraints.
#include <ct/optcon/optcon.h>
constexpr size_t NX = 3, NU = 2;
#define INST2(X) template class ct::optcon::X<NX, NU>;
INST2(CostFunction)
INST2(CostFunctionQuadratic)
INST2(CostFunctionQuadraticSimple)
INST2(CostFunctionAnalytical)
INST2(TermBase)
INST2(TermLinear)
INST2(TermMixed)
INST2(TermQuadratic)
INST2(TermQuadMult)
INST2(TermQuadTracking)
INST2(TermSmoothAbs)
INST2(ConstraintBase)
template class ct::optcon::BoxConstraintBase<NU, NX, NU>;
template class ct::optcon::BoxConstraintBase<NX, NX, NU>;
INST2(ControlInputConstraint)
INST2(StateConstraint)
INST2(TerminalConstraint)
INST2(ObstacleConstraint)
INST2(ConstraintContainerBase)
INST2(LinearConstraintContainer)
INST2(ConstraintContainerAnalytical)
INST2(SwitchedLinearConstraintContainer)
template class ct::core::tpl::ActivationBase<double>;
template class ct::core::tpl::BarrierActivation<double>;
template class ct::core::tpl::LinearActivation<double>;
template class ct::core::tpl::PeriodicActivation<double>;
template class ct::core::tpl::SingleActivation<double>;
template class ct::core::tpl::RBFGaussActivation<double>;
#include "spec_cost.hpp"
#include "spec_constr.hpp"
