// NLOC, LQOC, LQR, MPC.
#include <ct/optcon/optcon.h>
constexpr size_t NX = 3, NU = 2;
#define INST2(X) template class ct::optcon::X<NX, NU>;
INST2(LQOCProblem)
INST2(LQOCSolver)
INST2(GNRiccatiSolver)
INST2(NLOptConSolver)
template class ct::optcon::NLOCBackendBase<NX, NU, 1, 1, double, true>;
template class ct::optcon::NLOCBackendST<NX, NU, 1, 1, double, true>;
template class ct::optcon::NLOCBackendMP<NX, NU, 1, 1, double, true>;
template class ct::optcon::SingleShooting<NX, NU, 1, 1, double, true>;
template class ct::optcon::MultipleShooting<NX, NU, 1, 1, double, true>;
template class ct::optcon::OptConProblemBase<NX, NU, ct::core::ControlledSystem<NX, NU>, ct::core::LinearSystem<NX, NU>,
    ct::core::SystemLinearizer<NX, NU>>;
template class ct::optcon::MPC<ct::optcon::NLOptConSolver<NX, NU>>;
template class ct::optcon::StateFeedbackPolicyHandler<NX, NU, double>;
template class ct::optcon::tpl::MpcTimeHorizon<double>;
template class ct::optcon::tpl::MpcTimeKeeper<double>;
template class ct::optcon::OptconContinuousSystemInterface<NX, NU>;
template class ct::optcon::OptconDiscreteSystemInterface<NX, NU>;
#include "spec_riccati.hpp"
#include "spec_lqoc.hpp"
#include "spec_nloc.hpp"
#include "spec_nloc4.hpp"
#include "spec_mpc.hpp"
#include "spec_mp.hpp"
