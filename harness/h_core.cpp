// Instantiates the ct_core class templates at small, pairwise distinct dimensions so that their bodies are fully
// resolved in the AST. Nothing here is executed.
#include <ct/core/core.h>
#include <ct/core/systems/continuous_time/SecondOrderSystem.h>
#include <ct/core/control/continuous_time/mimo/LinearFunctions.h>
#include <ct/core/control/continuous_time/siso/StepInputController.h>
constexpr size_t NX = 3, NU = 2;
#define INST2(X) template class ct::core::X<NX, NU>;
INST2(ControlledSystem)
INST2(LinearSystem)
INST2(LTISystem)
INST2(SystemLinearizer)
template class ct::core::SystemLinearizer<4, 2>;
INST2(SwitchedControlledSystem)
INST2(SwitchedLinearSystem)
INST2(Controller)
INST2(ConstantController)
INST2(ConstantStateFeedbackController)
INST2(ConstantTrajectoryController)
INST2(StateFeedbackController)
INST2(DiscreteController)
template class ct::core::DiscreteLinearSystem<NX, NU>;
INST2(DiscreteSystemLinearizer)
INST2(SwitchedDiscreteControlledSystem)
INST2(SwitchedDiscreteLinearSystem)
template class ct::core::System<NX>;
template class ct::core::SymplecticSystem<2, 2, NU>;
template class ct::core::SystemDiscretizer<NX, NU>;
template class ct::core::SystemDiscretizer<4, 2, 2, 2>;
template class ct::core::Integrator<NX>;
template class ct::core::internal::StepperBase<Eigen::Matrix<double, NX, 1>, double>;
template class ct::core::IntegratorSymplectic<2, 2, NU, ct::core::internal::symplectic_euler_t<2, 2, double>>;
template class ct::core::Observer<NX>;
template class ct::core::EventHandler<NX>;
template class ct::core::MaxStepsEventHandler<NX>;
template class ct::core::KillIntegrationEventHandler<NX>;
template class ct::core::SubstepRecorder<NX, NU>;
template class ct::core::SensitivityApproximation<NX, NU>;
template class ct::core::SensitivityApproximation<4, 2, 2, 2>;
template class ct::core::SensitivityIntegrator<NX, NU>;
template class ct::core::SensitivityIntegrator<4, 2, 2, 2>;
template class ct::core::DynamicsLinearizerNumDiff<NX, NU, double, double>;
template class ct::core::DynamicsLinearizerNumDiff<NX, NU, double, int>;
template class ct::core::DerivativesNumDiff<NX, NU>;
template class ct::core::DerivativesCppad<NX, NU>;
template class ct::core::DiscreteArray<Eigen::Matrix<double, 3, 1>>;
template class ct::core::Interpolation<Eigen::Matrix<double, 3, 1>, Eigen::aligned_allocator<Eigen::Matrix<double, 3, 1>>>;
template class ct::core::DiscreteTrajectoryBase<ct::core::StateVector<NX>, Eigen::aligned_allocator<ct::core::StateVector<NX>>, double>;
template class ct::core::tpl::TimeArray<double>;
template class ct::core::PIDController<double>;
template class ct::core::tpl::ActivationBase<double>;
template class ct::core::tpl::BarrierActivation<double, ct::core::internal::DoubleTrait>;
template class ct::core::tpl::LinearActivation<double>;
template class ct::core::tpl::PeriodicActivation<double>;
template class ct::core::tpl::RBFGaussActivation<double>;
template class ct::core::tpl::SingleActivation<double>;
template class ct::core::tpl::SecondOrderSystem<double>;
template class ct::core::PhaseSequence<std::size_t, double>;
template class ct::core::PhaseSequence<std::size_t, int>;
struct VSimSystem : ct::core::ControlledSystem<NX, NU>
{
    static const size_t STATE_DIM = NX, CONTROL_DIM = NU;
    using SCALAR = double;
};
void v_use_sim(std::shared_ptr<VSimSystem> s, ct::core::StateVector<NX> x)
{
    ct::core::ControlSimulator<VSimSystem> c(0.1, 0.2, x, s);
    c.simulate(1.0);
    c.finish();
    c.stop();
}
#include "spec_traj.hpp"
#include "spec_switch.hpp"
#include "spec_sys.hpp"
#include "spec_int.hpp"
#include "spec_sens.hpp"
