#pragma once
#include "spec.hpp"
// ------------------------------------------------------------------ settings: defaults, files, plausibility
namespace spec { namespace C19 {
using namespace ct::optcon;
using ptree = boost::property_tree::ptree;
using Str = std::string;
using Ls = LineSearchSettings;
using Lq = LQOCSolverSettings;
using No = NLOptConSettings;
using Dm = DmsSettings;
using Sn = SnoptSettings;
using Ip = IpoptSettings;
using Nl = NlpSolverSettings;
using Ad = ct::core::DerivativesCppadSettings;
using Mp = mpc_settings;
using So = StateObserverSettings<2, NX>;
using Ss = SteadyStateKalmanFilterSettings<NX>;
using Ek = ExtendedKalmanFilterSettings<NX>;
using Uk = UnscentedKalmanFilterSettings<NX>;
using IT = ct::core::IntegrationType;
using AP = ct::core::SensitivityApproximationSettings::APPROXIMATION;

// the entry if the file has it; otherwise the value stays
template <class T>
void opt(const ptree& pt, T& x, const Str& key)
{
    try
    {
        x = pt.get<T>(key);
    } catch (...)
    {
    }
}
// entry (i,j) of <ns><name>, zero if absent, times its optional scaling
template <class M>
void mat(const Str& file, const Str& name, M& m, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    for (int i = 0; i < m.rows(); i++)
        for (int j = 0; j < m.cols(); j++)
            m(i, j) = pt.get<double>(ns + name + ".scaling", 1) *
                      pt.get<double>(ns + name + "." + "(" + std::to_string(i) + "," + std::to_string(j) + ")", 0.0);
}

// ---- single entries
void Inf__loadScalar__free(const Str& file, const Str& name, double& x, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    x = pt.get<double>(ns + name);
}
void Inf__loadScalarOptional__free(const Str& file, const Str& name, double& x, const double& otherwise, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    x = pt.get<double>(ns + name, otherwise);
}
void Inf__loadMatrix__free(const Str& file, const Str& name, Eigen::Matrix<double, NX, NU>& m, const Str& ns)
{
    mat(file, name, m, ns);
}

// ---- line search
void Ls__ctor(Ls& s)
{
    s.type = Ls::NONE;
    s.adaptive = false;
    s.maxIterations = 10;
    s.alpha_0 = 1.0;
    s.alpha_max = 1.0;
    s.n_alpha = 0.5;
    s.armijo_parameter = 0.01;
    s.debugPrint = false;
}
Ls::TYPE Ls__scnType__use(const Str& name)
{
    Ls s;
    if (s.stringToLineSearchType.find(name) == s.stringToLineSearchType.end())
        throw 1;
    return s.stringToLineSearchType[name];
}
Ls::TYPE Ls__scnType__expect(const Str& name)
{
    std::map<Str, Ls::TYPE> m = {{"NONE", Ls::NONE}, {"SIMPLE", Ls::SIMPLE}, {"ARMIJO", Ls::ARMIJO}, {"GOLDSTEIN", Ls::GOLDSTEIN}};
    if (m.find(name) == m.end())
        throw 1;
    return m[name];
}
bool Ls__parametersOk(Ls& s)
{
    return s.alpha_0 > 0 && s.n_alpha > 0 && s.n_alpha < 1 && s.alpha_max > 0;
}
void Ls__load(Ls& s, const Str& file, bool verbose, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    const Str type = pt.get<Str>(ns + ".type");
    if (s.stringToLineSearchType.find(type) == s.stringToLineSearchType.end())
        exit(-1);
    s.type = s.stringToLineSearchType[type];
    s.maxIterations = pt.get<size_t>(ns + ".maxIterations");
    s.alpha_0 = pt.get<double>(ns + ".alpha_0");
    s.n_alpha = pt.get<double>(ns + ".n_alpha");
    s.debugPrint = pt.get<bool>(ns + ".debugPrint");
    opt(pt, s.armijo_parameter, ns + ".armijo_parameter");
    s.adaptive = false;
    opt(pt, s.adaptive, ns + ".adaptive");
    s.alpha_max = s.alpha_0;
    opt(pt, s.alpha_max, ns + ".alpha_max");
}

// ---- linear-quadratic solver
void Lq__ctor(Lq& s)
{
    s.lqoc_debug_print = false;
    s.num_lqoc_iterations = 10;
}
void Lq__load(Lq& s, const Str& file, bool verbose, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    opt(pt, s.num_lqoc_iterations, ns + ".num_lqoc_iterations");
    opt(pt, s.lqoc_debug_print, ns + ".lqoc_debug_print");
}

// ---- nonlinear optimal control
void No__ctor(No& s)
{
    s.integrator = IT::RK4;
    s.discretization = AP::BACKWARD_EULER;
    s.timeVaryingDiscretization = false;
    s.nlocp_algorithm = No::GNMS;
    s.lqocp_solver = No::GNRICCATI_SOLVER;
    s.loggingPrefix = "alg";
    s.epsilon = 1e-5;
    s.dt = 0.001;
    s.K_sim = 1;
    s.K_shot = 1;
    s.min_cost_improvement = 1e-5;
    s.maxDefectSum = 1e-5;
    s.meritFunctionRho = 0;
    s.meritFunctionRhoConstraints = 1;
    s.max_iterations = 100;
    s.fixedHessianCorrection = false;
    s.recordSmallestEigenvalue = false;
    s.nThreads = 4;
    s.nThreadsEigen = 4;
    s.debugPrint = false;
    s.printSummary = true;
    s.useSensitivityIntegrator = false;
    s.logToMatlab = false;
}
double No__getSimulationTimestep(No& s)
{
    return s.dt / s.K_sim;
}
int No__computeK(No& s, double T)
{
    if (T < 0)
        throw std::runtime_error("");
    return std::max(1, (int)std::lround(T / s.dt));
}
bool No__scnClosed__use(No::NLOCP_ALGORITHM a)
{
    No s;
    s.nlocp_algorithm = a;
    return s.closedLoopShooting();
}
bool No__scnClosed__expect(No::NLOCP_ALGORITHM a)
{
    assume(a == No::GNMS || a == No::ILQR || a == No::MS_ILQR || a == No::SS_OL || a == No::SS_CL || a == No::GNMS_M_OL || a == No::GNMS_M_CL);
    return a == No::ILQR || a == No::MS_ILQR || a == No::SS_CL || a == No::GNMS_M_CL;
}
bool No__scnSingle__use(No::NLOCP_ALGORITHM a)
{
    No s;
    s.nlocp_algorithm = a;
    return s.isSingleShooting();
}
bool No__scnSingle__expect(No::NLOCP_ALGORITHM a)
{
    assume(a == No::GNMS || a == No::ILQR || a == No::MS_ILQR || a == No::SS_OL || a == No::SS_CL || a == No::GNMS_M_OL || a == No::GNMS_M_CL);
    return a == No::ILQR || a == No::SS_OL || a == No::SS_CL;
}
bool No__parametersOk(No& s)
{
    if (s.dt <= 0 || s.K_sim <= 0 || s.K_shot <= 0)
        return false;
    if (s.nlocp_algorithm == No::ILQR && s.K_shot > 1)
        return false;
    if (s.nThreads > 100 || s.nThreadsEigen > 100)
        return false;
    return s.lineSearchSettings.parametersOk();
}
void No__load(No& s, const Str& file, bool verbose, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    opt(pt, s.dt, ns + ".dt");
    opt(pt, s.K_sim, ns + ".K_sim");
    opt(pt, s.K_shot, ns + ".K_shot");
    opt(pt, s.epsilon, ns + ".epsilon");
    opt(pt, s.timeVaryingDiscretization, ns + ".timeVaryingDiscretization");
    opt(pt, s.min_cost_improvement, ns + ".min_cost_improvement");
    opt(pt, s.maxDefectSum, ns + ".maxDefectSum");
    opt(pt, s.meritFunctionRho, ns + ".meritFunctionRho");
    opt(pt, s.meritFunctionRhoConstraints, ns + ".meritFunctionRhoConstraints");
    opt(pt, s.max_iterations, ns + ".max_iterations");
    opt(pt, s.nThreads, ns + ".nThreads");
    opt(pt, s.nThreadsEigen, ns + ".nThreadsEigen");
    opt(pt, s.loggingPrefix, ns + ".loggingPrefix");
    opt(pt, s.debugPrint, ns + ".debugPrint");
    opt(pt, s.printSummary, ns + ".printSummary");
    opt(pt, s.useSensitivityIntegrator, ns + ".useSensitivityIntegrator");
    opt(pt, s.logToMatlab, ns + ".logToMatlab");
    opt(pt, s.recordSmallestEigenvalue, ns + ".recordSmallestEigenvalue");
    opt(pt, s.fixedHessianCorrection, ns + ".fixedHessianCorrection");
    try
    {
        s.lineSearchSettings.load(file, verbose, ns + ".line_search");
    } catch (...)
    {
    }
    try
    {
        s.lqoc_solver_settings.load(file, verbose, ns + ".lqoc_solver_settings");
    } catch (...)
    {
    }
    try
    {
        const Str i = pt.get<Str>(ns + ".integrator");
        if (s.stringToIntegrator.find(i) == s.stringToIntegrator.end())
            exit(-1);
        s.integrator = s.stringToIntegrator[i];
        const Str d = pt.get<Str>(ns + ".discretization");
        if (s.stringToDiscretization.find(d) == s.stringToDiscretization.end())
            exit(-1);
        s.discretization = s.stringToDiscretization[d];
        const Str a = pt.get<Str>(ns + ".nlocp_algorithm");
        if (s.stringToNlocAlgorithm.find(a) == s.stringToNlocAlgorithm.end())
            exit(-1);
        s.nlocp_algorithm = s.stringToNlocAlgorithm[a];
        const Str l = pt.get<Str>(ns + ".locp_solver");
        if (s.stringToLqocSolver.find(l) == s.stringToLqocSolver.end())
            exit(-1);
        s.lqocp_solver = s.stringToLqocSolver[l];
    } catch (...)
    {
    }
}
IT No__scnIntegrator__use(const Str& name)
{
    No s;
    if (s.stringToIntegrator.find(name) == s.stringToIntegrator.end())
        throw 1;
    return s.stringToIntegrator[name];
}
IT No__scnIntegrator__expect(const Str& name)
{
    std::map<Str, IT> m = {{"Euler", IT::EULER}, {"RK4", IT::RK4}, {"MODIFIED_MIDPOINT", IT::MODIFIED_MIDPOINT}, {"ODE45", IT::ODE45},
        {"RK5VARIABLE", IT::RK5VARIABLE}, {"RK78", IT::RK78}, {"BULIRSCHSTOER", IT::BULIRSCHSTOER}, {"EulerCT", IT::EULERCT},
        {"RK4CT", IT::RK4CT}, {"Euler_Sym", IT::EULER_SYM}, {"Rk_Sym", IT::RK_SYM}};
    if (m.find(name) == m.end())
        throw 1;
    return m[name];
}
AP No__scnDiscretization__use(const Str& name)
{
    No s;
    if (s.stringToDiscretization.find(name) == s.stringToDiscretization.end())
        throw 1;
    return s.stringToDiscretization[name];
}
AP No__scnDiscretization__expect(const Str& name)
{
    std::map<Str, AP> m = {{"Forward_euler", AP::FORWARD_EULER}, {"Backward_euler", AP::BACKWARD_EULER}, {"Symplectic_euler", AP::SYMPLECTIC_EULER},
        {"Tustin", AP::TUSTIN}, {"Matrix_exponential", AP::MATRIX_EXPONENTIAL}};
    if (m.find(name) == m.end())
        throw 1;
    return m[name];
}
No::NLOCP_ALGORITHM No__scnAlgorithm__use(const Str& name)
{
    No s;
    if (s.stringToNlocAlgorithm.find(name) == s.stringToNlocAlgorithm.end())
        throw 1;
    return s.stringToNlocAlgorithm[name];
}
No::NLOCP_ALGORITHM No__scnAlgorithm__expect(const Str& name)
{
    std::map<Str, No::NLOCP_ALGORITHM> m = {{"GNMS", No::GNMS}, {"ILQR", No::ILQR}, {"MS_ILQR", No::MS_ILQR}, {"SS_OL", No::SS_OL},
        {"SS_CL", No::SS_CL}, {"GNMS_M_OL", No::GNMS_M_OL}, {"GNMS_M_CL", No::GNMS_M_CL}};
    if (m.find(name) == m.end())
        throw 1;
    return m[name];
}
No::LQOCP_SOLVER No__scnSolver__use(const Str& name)
{
    No s;
    if (s.stringToLqocSolver.find(name) == s.stringToLqocSolver.end())
        throw 1;
    return s.stringToLqocSolver[name];
}
No::LQOCP_SOLVER No__scnSolver__expect(const Str& name)
{
    std::map<Str, No::LQOCP_SOLVER> m = {{"GNRICCATI_SOLVER", No::GNRICCATI_SOLVER}, {"HPIPM_SOLVER", No::HPIPM_SOLVER}};
    if (m.find(name) == m.end())
        throw 1;
    return m[name];
}

// ---- model predictive control
void Mp__ctor(Mp& s)
{
    s.stateForwardIntegration_ = false;
    s.stateForwardIntegratorType_ = IT::RK4;
    s.stateForwardIntegration_dt_ = 0.001;
    s.measureDelay_ = false;
    s.delayMeasurementMultiplier_ = 0.7;
    s.fixedDelayUs_ = 0;
    s.additionalDelayUs_ = 0;
    s.postTruncation_ = false;
    s.mpc_mode = CONSTANT_RECEDING_HORIZON;
    s.minimumTimeHorizonMpc_ = 1.0;
    s.coldStart_ = false;
    s.useExternalTiming_ = false;
}
void Mp__loadMpcSettings__free(const Str& file, Mp& s)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.stateForwardIntegration_ = pt.get<bool>("mpc.stateForwardIntegration");
    s.stateForwardIntegratorType_ = (IT)pt.get<int>("mpc.stateForwardIntegratorType");
    s.stateForwardIntegration_dt_ = pt.get<double>("mpc.stateForwardIntegration_dt");
    s.measureDelay_ = pt.get<bool>("mpc.measureDelay");
    s.delayMeasurementMultiplier_ = pt.get<double>("mpc.delayMeasurementMultiplier");
    s.fixedDelayUs_ = pt.get<int>("mpc.fixedDelayUs");
    s.additionalDelayUs_ = pt.get<int>("mpc.additionalDelayUs");
    s.postTruncation_ = pt.get<bool>("mpc.postTruncation");
    s.minimumTimeHorizonMpc_ = pt.get<double>("mpc.timeHorizon");
    s.coldStart_ = pt.get<bool>("mpc.coldStart");
    s.useExternalTiming_ = pt.get<bool>("mpc.useExternalTiming");
}

// ---- direct multiple shooting
void Dm__ctor(Dm& s)
{
    s.N_ = 30;
    s.T_ = 5;
    s.nThreads_ = 1;
    s.splineType_ = Dm::ZERO_ORDER_HOLD;
    s.costEvaluationType_ = Dm::SIMPLE;
    s.objectiveType_ = Dm::KEEP_TIME_AND_GRID;
    s.h_min_ = 0.1;
    s.integrationType_ = Dm::RK4;
    s.dt_sim_ = 0.01;
    s.absErrTol_ = 1e-10;
    s.relErrTol_ = 1e-10;
}
bool Dm__parametersOk(Dm& s)
{
    return s.N_ >= 1 && s.N_ <= 1000 && s.T_ > 0 && s.nThreads_ >= 1 && s.nThreads_ <= 32 && s.splineType_ >= 0 && s.splineType_ < 2 &&
           s.costEvaluationType_ >= 0 && s.costEvaluationType_ < 2 && s.objectiveType_ >= 0 && s.objectiveType_ < 2 && s.h_min_ >= 0.01 &&
           s.h_min_ <= s.T_ && s.integrationType_ >= 0 && s.integrationType_ < 3 && s.dt_sim_ > 0 && s.dt_sim_ <= 100 && s.absErrTol_ > 1e-20 &&
           s.absErrTol_ <= 1 && s.relErrTol_ > 1e-20 && s.relErrTol_ <= 1 && s.solverSettings_.parametersOk();
}
void Dm__load(Dm& s, const Str& file, bool verbose, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.N_ = pt.get<unsigned int>(ns + ".N");
    s.T_ = pt.get<double>(ns + ".T");
    s.nThreads_ = pt.get<unsigned int>(ns + ".nThreads");
    s.splineType_ = (Dm::SplineType)pt.get<unsigned int>(ns + ".InterpolationType");
    s.costEvaluationType_ = (Dm::CostEvaluationType)pt.get<unsigned int>(ns + ".CostEvaluationType");
    s.objectiveType_ = (Dm::ObjectiveType)pt.get<unsigned int>(ns + ".ObjectiveType");
    s.h_min_ = pt.get<double>(ns + ".h_min");
    s.integrationType_ = (Dm::IntegrationType)pt.get<unsigned int>(ns + ".IntegrationType");
    s.dt_sim_ = pt.get<double>(ns + ".dt_sim");
    s.absErrTol_ = pt.get<double>(ns + ".AbsErrTol");
    s.relErrTol_ = pt.get<double>(ns + ".RelErrTol");
    s.solverSettings_.load(file, verbose, ns + ".solver");
    s.cppadSettings_.load(file, verbose, ns + ".cppad");
}

// ---- NLP solvers
void Nl__ctor(Nl& s)
{
    s.solverType_ = NlpSolverType::IPOPT;
    s.useGeneratedCostGradient_ = false;
    s.useGeneratedConstraintJacobian_ = false;
}
bool Nl__parametersOk(Nl& s)
{
    return s.solverType_ == NlpSolverType::IPOPT || s.solverType_ == NlpSolverType::SNOPT;
}
void Nl__load(Nl& s, const Str& file, bool verbose, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.solverType_ = (NlpSolverType)pt.get<unsigned int>(ns + ".SolverType");
    s.useGeneratedCostGradient_ = pt.get<bool>(ns + ".UseGeneratedCostGradient");
    s.useGeneratedConstraintJacobian_ = pt.get<bool>(ns + ".UseGeneratedConstraintJacobian");
    if (s.solverType_ == NlpSolverType::IPOPT)
        s.ipoptSettings_.load(file, verbose, ns + ".ipopt");
    else if (s.solverType_ == NlpSolverType::SNOPT)
        s.snoptSettings_.load(file, verbose, ns + ".snopt");
}
void Sn__load(Sn& s, const Str& file, bool verbose, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.minor_iteration_limit_param_ = pt.get<unsigned int>(ns + ".MaxMinorIterations");
    s.major_iteration_limit_param_ = pt.get<unsigned int>(ns + ".MaxMajorIterations");
    s.minor_print_level_param_ = pt.get<unsigned int>(ns + ".MinorPrintLevelVerbosity");
    s.major_print_level_param_ = pt.get<unsigned int>(ns + ".MajorPrintLevelVerbosity");
    s.major_optimality_tolerance_param_ = pt.get<double>(ns + ".OptimalityTolerance");
}
void Ip__ctor(Ip& s)
{
    s.tol_ = 1e-8;
    s.constr_viol_tol_ = 1e-4;
    s.max_iter_ = 200;
    s.restoTol_ = 1e-7;
    s.acceptableTol_ = 1e-6;
    s.restoAcceptableTol_ = 1e-7;
    s.linear_scaling_on_demand_ = "yes";
    s.hessian_approximation_ = "limited-memory";
    s.nlp_scaling_method_ = "gradient-based";
    s.printLevel_ = 5;
    s.print_user_options_ = "no";
    s.print_frequency_iter_ = 1;
    s.printInfoString_ = "no";
    s.derivativeTest_ = "none";
    s.derivativeTestTol_ = 1e-4;
    s.derivativeTestPerturbation_ = 1e-8;
    s.point_perturbation_radius_ = 10;
    s.checkDerivativesForNaninf_ = "no";
    s.derivativeTestPrintAll_ = "no";
    s.linearSystemScaling_ = "none";
    s.linear_solver_ = "mumps";
    s.jacobianApproximation_ = "finite-difference-values";
}
void Ip__load(Ip& s, const Str& file, bool verbose, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.max_iter_ = pt.get<unsigned int>(ns + ".MaxIterations");
    s.derivativeTest_ = pt.get<bool>(ns + ".CheckDerivatives") ? "first-order" : "none";
    s.hessian_approximation_ = pt.get<bool>(ns + ".ExactHessian") ? "exact" : "limited-memory";
    s.printLevel_ = pt.get<unsigned int>(ns + ".Verbosity");
    s.tol_ = pt.get<double>(ns + ".OptimalityTolerance");
    Ip::setParameterIfExists(pt, s.jacobianApproximation_, "jacobianApproximation", ns);
    Ip::setParameterIfExists(pt, s.restoAcceptableTol_, "restoAcceptableTol", ns);
    Ip::setParameterIfExists(pt, s.constr_viol_tol_, "constr_viol_tol", ns);
    Ip::setParameterIfExists(pt, s.restoTol_, "restoTol", ns);
    Ip::setParameterIfExists(pt, s.acceptableTol_, "acceptableTol", ns);
    Ip::setParameterIfExists(pt, s.linear_scaling_on_demand_, "linear_scaling_on_demand", ns);
    Ip::setParameterIfExists(pt, s.nlp_scaling_method_, "nlp_scaling_method", ns);
    Ip::setParameterIfExists(pt, s.print_user_options_, "print_user_options", ns);
    Ip::setParameterIfExists(pt, s.print_frequency_iter_, "print_frequency_iter", ns);
    Ip::setParameterIfExists(pt, s.printInfoString_, "printInfoString", ns);
    Ip::setParameterIfExists(pt, s.derivativeTestTol_, "derivativeTestTol", ns);
    Ip::setParameterIfExists(pt, s.derivativeTestPerturbation_, "derivativeTestPerturbation", ns);
    Ip::setParameterIfExists(pt, s.point_perturbation_radius_, "point_perturbation_radius", ns);
    Ip::setParameterIfExists(pt, s.checkDerivativesForNaninf_, "checkDerivativesForNaninf", ns);
    Ip::setParameterIfExists(pt, s.derivativeTestPrintAll_, "derivativeTestPrintAll", ns);
    Ip::setParameterIfExists(pt, s.linear_solver_, "linear_solver", ns);
    Ip::setParameterIfExists(pt, s.linearSystemScaling_, "linearSystemScaling", ns);
}

// ---- automatic differentiation
void Ad__ctor(Ad& s)
{
    s.multiThreading_ = false;
    s.createForwardZero_ = false;
    s.createForwardOne_ = false;
    s.createReverseOne_ = false;
    s.createReverseTwo_ = false;
    s.createJacobian_ = false;
    s.createSparseJacobian_ = false;
    s.createHessian_ = false;
    s.createSparseHessian_ = false;
    s.maxAssignements_ = 20000;
    s.compiler_ = Ad::GCC;
    s.generateSourceCode_ = false;
    s.useDynamicLibrary_ = true;
}
Ad::CompilerType Ad__scnCompiler__use(const Str& name)
{
    Ad s;
    if (s.stringTocompiler.find(name) == s.stringTocompiler.end())
        throw 1;
    return s.stringTocompiler[name];
}
Ad::CompilerType Ad__scnCompiler__expect(const Str& name)
{
    std::map<Str, Ad::CompilerType> m = {{"GCC", Ad::GCC}, {"CLANG", Ad::CLANG}};
    if (m.find(name) == m.end())
        throw 1;
    return m[name];
}
void Ad__load(Ad& s, const Str& file, bool verbose, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.multiThreading_ = pt.get<bool>(ns + ".MultiThreading");
    s.createForwardZero_ = pt.get<bool>(ns + ".CreateForwardZero");
    s.createForwardOne_ = pt.get<bool>(ns + ".CreateForwardOne");
    s.createReverseOne_ = pt.get<bool>(ns + ".CreateReverseOne");
    s.createReverseTwo_ = pt.get<bool>(ns + ".CreateReverseTwo");
    s.createJacobian_ = pt.get<bool>(ns + ".CreateJacobian");
    s.createSparseJacobian_ = pt.get<bool>(ns + ".CreateSparseJacobian");
    s.createHessian_ = pt.get<bool>(ns + ".CreateHessian");
    s.createSparseHessian_ = pt.get<bool>(ns + ".CreateSparseHessian");
    s.maxAssignements_ = pt.get<unsigned int>(ns + ".MaxAssignements");
    s.generateSourceCode_ = pt.get<bool>(ns + ".GenerateSourceCode");
    s.useDynamicLibrary_ = pt.get<bool>(ns + ".UseDynamicLibrary");
    const Str c = pt.get<Str>(ns + ".Compiler");
    if (s.stringTocompiler.find(c) != s.stringTocompiler.end())
        s.compiler_ = s.stringTocompiler[c];
}

// ---- estimators
void So__load(So& s, const Str& file, bool verbose, const Str& ns)
{
    mat(file, "C", s.C, ns);
    mat(file, "Q", s.Q, ns);
    mat(file, "R", s.R, ns);
    mat(file, "dFdv", s.dFdv, ns);
}
void Ss__load(Ss& s, const Str& file, bool verbose, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.maxDAREIterations = pt.get<size_t>(ns + ".maxDAREIterations", 1000);
    mat(file, "x0", s.x0, ns + ".");
}
void Ek__load(Ek& s, const Str& file, bool verbose, const Str& ns)
{
    mat(file, "x0", s.x0, ns);
    mat(file, "P0", s.P0, ns);
}
void Uk__load(Uk& s, const Str& file, bool verbose, const Str& ns)
{
    ptree pt;
    boost::property_tree::read_info(file, pt);
    s.alpha = pt.get<double>(ns + ".alpha");
    s.beta = pt.get<double>(ns + ".beta");
    s.kappa = pt.get<double>(ns + ".kappa");
    mat(file, "x0", s.x0, ns + ".");
    mat(file, "P0", s.P0, ns + ".");
}
} }
