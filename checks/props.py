import locks
from frame import *
import json, os

EQ_RULE = ('reference equivalence: the value graph of the function (state of every field, return value, throw condition) has the same '
           'normal form as that of its reference in harness/spec_*.hpp for all inputs')


OPNAMES = {'opPlus': 'operator+', 'opMinus': 'operator-', 'opPlusEq': 'operator+=', 'opMinusEq': 'operator-=', 'opAssign': 'operator=',
           'opMul': 'operator*', 'opDiv': 'operator/', 'opIdx': 'operator[]', 'opCall': 'operator()'}


def same_params(D, f, ps):
    """parameter types agree"""
    def s(t):
        return D.types[D.noref(t)]['s'].replace('const ', '')
    return len(f['params']) == len(ps) and all(s(a[2]) == s(b[2]) for a, b in zip(f['params'], ps))


def find_method(D, cls, mname, ps):
    for c in D.bases(cls):
        cand = [f for f in D.byname.get(mname, []) if f.get('clskey') == c and f['body'] is not None]
        m = [f for f in cand if same_params(D, f, ps)]
        if m:
            return m[0]
        m = [f for f in cand if len(f['params']) == len(ps)]
        if len(m) == 1:
            return m[0]
    return None


def spec_prop(ctx, dbname, pid=None, skip=(), models=None, prep=None, noinline=(), only=None, sorted_=None, pure=None, inout=()):
    ctx.rule(EQ_RULE)

    def pick(o, n):
        """per obligation options: those of '*' and its own; '-x' takes x out"""
        if not isinstance(o, dict):
            return set(o or ())
        r = set(o.get('*', ())) | set(o.get(n, ()))
        return {x for x in r if not x.startswith('-') and '-' + x not in r}
    D = DBM.load(dbname)
    pre = f'spec::{pid or ctx.pid}::'
    sp = [f for fs in D.byname.values() for f in fs if f.get('qn', '').startswith(pre) and '__' in f['name'].split('::')[-1]]
    sp = sorted(sp, key=lambda f: f['loc'])
    if not sp:
        ctx.errors.append(f'no reference functions found for {pre} in {dbname}')
    alts = {}
    byn = {f['name'].split('::')[-1]: f for f in sp}
    for f in sp:
        n = f['name'].split('::')[-1]
        if n.endswith('__alt'):
            alts[n[:-5]] = f
    for f in sp:
        n = f['name'].split('::')[-1]
        if n.endswith('__alt'):
            continue
        if only and n not in only:
            continue
        parts = n.split('__')
        if parts[-1] == 'expect':
            continue
        if parts[-1] == 'use':
            # scenario: a use of the library and what it has to amount to
            e = byn.get(n[:-3] + 'expect')
            o = dict(skip=skip.get(n, skip.get('*', ())) if isinstance(skip, dict) else skip, models=models, prep=prep,
                     noinline=pick(noinline, n), pure=pick(pure, n), inout=pick(inout, n),
                     sorted_=(sorted_ or {}).get(n, (sorted_ or {}).get('*', ())))
            equiv(ctx, D, None, f, e, n, scenario=True, **o)
            continue
        mname = OPNAMES.get(parts[1], parts[1])
        fr = len(parts) > 2 and parts[2] == 'free'
        ps = f['params'][1:]
        if fr:
            cls = None
            m = next((g for g in D.byname.get(mname, []) + [g for k in D.byname for g in D.byname[k] if k.endswith('::' + mname)]
                      if (g.get('clskey') is None or g.get('static')) and g.get('body') is not None and not g.get('qn', '').startswith('spec::') and same_params(D, g, f['params'])), None)
            ps = f['params']
        else:
            cls = D.types[D.noref(f['params'][0][2])].get('key')
            if mname == 'ctor':
                m = next((g for g in D.fns.values() if g.get('clskey') == cls and 'inits' in g and same_params(D, g, ps)), None)
            else:
                m = find_method(D, cls, mname, ps)
        name = n
        if m is None:
            ctx.undecided(name, f'no function {mname} with these parameters in {cls} any more')
            continue
        sk = skip.get(n, skip.get('*', ())) if isinstance(skip, dict) else skip
        ni, pu = pick(noinline, n), pick(pure, n)
        so = (sorted_ or {}).get(n, (sorted_ or {}).get('*', ()))
        if n in alts:
            # a reference of the same shape first: equal normal forms settle it without valuations
            if equiv(ctx, D, cls, m, alts[n], name, skip=sk, models=models, prep=prep, noinline=ni, pure=pu, inout=pick(inout, n), dry=True):
                ctx.ok(name, 'normal forms equal')
                continue
        equiv(ctx, D, cls, m, f, name, skip=sk, models=models, prep=prep, noinline=ni, pure=pu, inout=pick(inout, n), sorted_=so)


PROPS = {}


def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f
    return d


OPTS = {}
OPTS['C01'] = dict(noinline={'Ric__solveSingleStage': ['initializeCostToGo', 'designController', 'computeCostToGo'],
                             'Ric__solve': ['solveSingleStage']})


@prop('C01')
def c01(ctx):
    spec_prop(ctx, 'nloc', **OPTS['C01'])


OPTS['C08'] = dict(sorted_={'Interp__findIndex': [('arg', 0)], 'Interp__interpolate': [('arg', 0)],
                            'Traj__eval': [('f', ('this',), 'time_')], 'Traj__getIndexFromTime': [('f', ('this',), 'time_')]})


@prop('C08')
def c08(ctx):
    spec_prop(ctx, 'core', **OPTS['C08'])


_TS = [('f', ('this',), 'time_schedule_'), ('f', ('f', ('this',), 'continuousModeSequence_'), 'time_schedule_'),
       ('f', ('f', ('this',), 'discreteModeSequence_'), 'time_schedule_')]
OPTS['C09'] = dict(sorted_={'*': _TS})


@prop('C09')
def c09(ctx):
    spec_prop(ctx, 'core', **OPTS['C09'])


OPTS['C12'] = dict(skip=['res_ref_'])


@prop('C12')
def c12(ctx):
    spec_prop(ctx, 'core', **OPTS['C12'])


OPTS['C13'] = dict()


@prop('C13')
def c13(ctx):
    spec_prop(ctx, 'core', **OPTS['C13'])


OPTS['C10'] = dict(skip={'Int__scnRhs__use': ['systemFunction_'], 'Sym__scnPos__use': ['systemFunctionPosition_', 'systemFunctionVelocity_'],
                       'Sym__scnVel__use': ['systemFunctionPosition_', 'systemFunctionVelocity_']})


@prop('C10')
def c10(ctx):
    spec_prop(ctx, 'core', **OPTS['C10'])


OPTS['C11'] = dict(skip={'Sen__scnRhs__use': ['dFdxDot_'], 'Sen4__scnSym__use': ['dFdxDot_']},
                   noinline={'*': ['integrateSensitivity', 'integrate_n_steps', 'do_step', 'setController'],
                             'Dis__changeContinuousTimeSystem': ['initialize']})


@prop('C11')
def c11(ctx):
    spec_prop(ctx, 'core', **OPTS['C11'])


OPTS['C02'] = dict()


@prop('C02')
def c02(ctx):
    spec_prop(ctx, 'nloc', **OPTS['C02'])


OPTS['C03'] = dict(noinline={'*': ['setInputBoxConstraints', 'setIntermediateStateBoxConstraints', 'setTerminalBoxConstraints', 'solveFullLQProblem',
                                   'computeGeneralConstraintErrorOfTrajectory', 'setProblem'],
                             'B__solveFullLQProblem': ['setProblem'],
                             'B__computeLQApproximation': ['initializeCostToGo', 'executeLQApproximation', 'computeLinearizedConstraints']})


@prop('C03')
def c03(ctx):
    spec_prop(ctx, 'nloc', **OPTS['C03'])


_BK = ['rolloutSingleShot', 'rolloutShots', 'computeSingleDefect', 'rolloutShotsSingleThreaded', 'computeCostsOfTrajectory', 'computeBoxConstraintErrorOfTrajectory',
       'computeGeneralConstraintErrorOfTrajectory', 'executeLineSearch', 'acceptStep', 'performLineSearch', 'doFullStepUpdate', 'updateCosts',
       'computeDiscreteArrayNorm', 'computeDefectsNorm', 'getNumStepsPerShot', 'changeNumStages', 'setZero', 'setProblem', 'parametersOk',
       'setInputBoxConstraintsForLQOCProblem', 'setStateBoxConstraintsForLQOCProblem', 'closedLoopShooting', 'computeK']
OPTS['C04'] = dict(noinline={'*': _BK, 'B__computeDefectsNorm__arr': ['-computeDiscreteArrayNorm'],
                             'B__getNumStepsPerShot': ['isSingleShooting']}, pure={'*': ['acceptStep']}, inout={'*': ['rolloutSingleShot', 'rolloutShotsSingleThreaded', 'computeSingleDefect']})


@prop('C04')
def c04(ctx):
    spec_prop(ctx, 'nloc', **OPTS['C04'])


_IT = ['nominalRollout', 'updateCosts', 'setInputBoxConstraintsForLQOCProblem', 'resetDefects',
       'setStateBoxConstraintsForLQOCProblem', 'computeLQApproximation', 'solveFullLQProblem', 'extractSolution', 'lineSearch', 'printSummary', 'rolloutShots',
       'prepareSolveLQProblem', 'finishSolveLQProblem', 'computeDefectsNorm', 'doFullStepUpdate', 'getNumStepsPerShot', 'prepareIteration',
       'finishIteration', 'runIteration', 'configure', 'setInitialGuess', 'getSolution', 'getStateTrajectory', 'getControlTrajectory', 'changeTimeHorizon',
       'changeInitialState', 'changeCostFunction', 'changeNonlinearSystem', 'changeLinearSystem', 'setAlgorithm', 'ctor:NLOCBackendMP', 'ctor:NLOCBackendST']
OPTS['C24'] = dict(noinline={'*': _IT, 'Sol__setAlgorithm': ['-setAlgorithm', 'isSingleShooting']}, pure={'*': ['getNumStepsPerShot']})


@prop('C24')
def c24(ctx):
    spec_prop(ctx, 'nloc', **OPTS['C24'])


OPTS['C05'] = dict(skip=['index_'])


@prop('C05')
def c05(ctx):
    spec_prop(ctx, 'cost', **OPTS['C05'])


OPTS['C06'] = dict(skip={'*': [], 'CS__ctor__full': ['eps_', 'doubleSidedDerivative_', 'intermediateCostAnalytical_', 'finalCostAnalytical_'],
                         'CS__ctor__copy': ['eps_', 'doubleSidedDerivative_', 'intermediateCostAnalytical_', 'finalCostAnalytical_']})


@prop('C06')
def c06(ctx):
    spec_prop(ctx, 'cost', **OPTS['C06'])


_NZ = ['get%sCount%s' % (a, b) for a in ('JacobianStateNonZero', 'JacobianInputNonZero') for b in ('Intermediate', 'Terminal')] + [
    'getIntermediateConstraintsCount', 'getTerminalConstraintsCount']
OPTS['C07'] = dict(pure={'*': _NZ}, noinline={'KB__jacobianStateSparse': ['jacobianState'], 'KB__jacobianInputSparse': ['jacobianInput']})


@prop('C07')
def c07(ctx):
    spec_prop(ctx, 'cost', **OPTS['C07'])


_TM = ['start', 'stop', 'getElapsedTime', 'reset']
_MP = ['computeNewTimings', 'changeTimeHorizon', 'setInitialGuess', 'prepareMPCIteration', 'finishMPCIteration', 'changeInitialState', 'getSolution',
       'getTimeHorizon', 'startDelayMeasurement', 'stopDelayMeasurement', 'timeSincePreviousSuccessfulSolve', 'timeSinceFirstSuccessfulSolve',
       'doForwardIntegration', 'integrateForward', 'integrate_n_steps', 'changeIntegrationType', 'ctor:StateFeedbackController'] + _TM
OPTS['C15'] = dict(noinline={'*': [], **{'MPC__' + n: _MP for n in ('setInitialGuess', 'timeSinceFirstSuccessfulSolve', 'doForwardIntegration',
                                                                  'integrateForward', 'prepareIteration', 'finishIteration', 'resetMpc', 'updateSettings')},
                             'MTK__computeNewTimings': _TM + ['computeNewTimeHorizon'], 'MTK__startDelayMeasurement': _TM, 'MTK__stopDelayMeasurement': _TM,
                             'MTK__timeSincePreviousSuccessfulSolve': _TM, 'MTK__timeSinceFirstSuccessfulSolve': _TM, 'MTK__initialize': _TM,
                             'SPH__designWarmStartingPolicy': ['eraseFront', 'getIndexFromTime', 'push_back', 'pop_back', 'back', 'size']},
                   pure={'*': ['getElapsedTime', 'getTimeHorizon'], 'SPH__designWarmStartingPolicy': ['getIndexFromTime', 'size', 'back']})


@prop('C15')
def c15(ctx):
    spec_prop(ctx, 'nloc', **OPTS['C15'])


OPTS['C16'] = dict(noinline={'S__update': ['computeSteadyStateRiccatiMatrix'],
                             'U__predict': ['computeSigmaPoints', 'computeStatePrediction', 'computeCovarianceFromSigmaPoints'],
                             'U__update': ['computeMeasurementPrediction', 'computeCovarianceFromSigmaPoints', 'computeKalmanGain', 'updateStateCovariance']})
OPTS['C17'] = dict(noinline={'Ca__solve': ['solveSchurIterative', 'solveSchurDirect'], 'L__compute': ['solve'],
                             'Ca__computeSteadyStateRiccatiMatrix': ['solve'], 'Da__computeSteadyStateRiccatiMatrix__from': ['iterateRobust'],
                             'Da__computeSteadyStateRiccatiMatrix__fromQ': ['computeSteadyStateRiccatiMatrix'],
                             'Fh__designController__AB': ['solve'], 'Fh__designController__lin': ['solve', 'linearizeModel'],
                             'Fh__solve': ['iterateRobust']}, skip={'Fh__ctor': ['eigenvalueSolver_'], 'Dr__iterateRobust': ['eigenvalueSolver_']},
                   inout={'Da__computeSteadyStateRiccatiMatrix__from': ['iterateRobust'], 'Fh__solve': ['iterateRobust']})


@prop('C16')
def c16(ctx):
    spec_prop(ctx, 'lqr', **OPTS['C16'])


@prop('C17')
def c17(ctx):
    spec_prop(ctx, 'lqr', **OPTS['C17'])


_SI = ['integrateShot', 'integrateCost', 'integrateSensitivities', 'integrateCostSensitivities']
OPTS['C14'] = dict(pure={'*': ['getStateIndex', 'getControlIndex', 'getOptimizedState', 'getOptimizedControl']},
                   noinline={'*': _SI + ['reset', 'getOptimizedInputs', 'getOptimizedStates', 'setInitGuess'],
                             'Shot__integrateShot': ['-integrateShot', 'integrate'],
                             'Shot__integrateCost': ['-integrateCost', 'integrateCost'],
                             'Shot__reset': ['-reset'], 'W__getOptimizedInputs': ['-getOptimizedInputs'], 'W__getOptimizedStates': ['-getOptimizedStates']},
                   skip={'Sen__scn%s__use' % n: ['xDot_', 'dX0dot_', 'dU0dot_', 'dUfdot_', 'costDot_', 'costdX0dot_', 'costdU0dot_', 'costdUfdot_']
                         for n in ('X', 'DX', 'DU', 'DF', 'Cost', 'CostX', 'CostU', 'CostF')})


@prop('C14')
def c14(ctx):
    spec_prop(ctx, 'dms', **OPTS['C14'])


_NLP = ['evaluateCostFun', 'evaluateCostGradient', 'evaluateConstraints', 'evaluateConstraintJacobian', 'evaluateHessian', 'getSparsityPatternJacobian',
        'getSparsityPatternHessian', 'getConstraintsCount', 'getNonZeroJacobianCount', 'getNonZeroHessianCount', 'getConstraintBounds', 'getVarCount',
        'getVariableBounds', 'extractOptimizationVars', 'getInitialGuess', 'getBoundMultipliers', 'getLambdaVars', 'extractIpoptSolution']
_CONT = ['evalConstraints', 'evalSparseJacobian', 'getSparsityPattern', 'getConstraintsCount', 'getNonZerosJacobianCount', 'getBounds', 'evalGradient']
OPTS['C22'] = dict(noinline=dict([('Ip__%s' % n, _NLP) for n in
                                  ('get_nlp_info', 'get_bounds_info', 'get_starting_point', 'eval_f', 'eval_grad_f', 'eval_g', 'eval_jac_g__pattern',
                                   'eval_jac_g__values', 'eval_h__pattern', 'eval_h__values', 'finalize_solution')]
                                 + [('Np__%s' % n, _CONT) for n in
                                    ('evaluateCostGradient', 'evaluateConstraints', 'evaluateConstraintJacobian', 'getSparsityPatternJacobian',
                                     'getConstraintsCount', 'getNonZeroJacobianCount', 'getConstraintBounds')]),
                   inout={'*': ['genSparsityPattern', 'getVariableBounds', 'getConstraintBounds', 'getInitialGuess', 'getBoundMultipliers', 'getLambdaVars',
                                'getSparsityPatternJacobian', 'getSparsityPatternHessian', 'evaluateConstraintJacobian', 'evaluateHessian',
                                'evaluateCostGradient', 'evaluateConstraints']})


@prop('C22')
def c22(ctx):
    spec_prop(ctx, 'dms', **OPTS['C22'])


_TXT = ['lineSearchTypeToString', 'integratorToString', 'discretizationToString', 'nlocAlgorithmToString', 'lqocSolverToString', 'splineToString',
        'objTypeToString', 'costEvalToString', 'solverToString', 'compilerToString']       # only printed
_TAB = ['stringToLineSearchType', 'stringToIntegrator', 'stringToDiscretization', 'stringToNlocAlgorithm', 'nlocAlgorithmToClosedLoopShooting',
        'nlocAlgorithmToSingleShooting', 'stringToLqocSolver', 'stringTocompiler']         # as constructed: decided by scenarios
OPTS['C19'] = dict(skip={'*': _TXT, 'Ls__ctor': _TXT + _TAB, 'No__ctor': _TXT + _TAB, 'Ad__ctor': _TXT + _TAB})


@prop('C19')
def c19(ctx):
    spec_prop(ctx, 'dms', **OPTS['C19'])


OPTS['C25'] = dict(noinline={'*': ['!executeLQApproximation', '!computeLinearizedConstraints', '!rolloutSingleShot', '!computeSingleDefect',
                                   '!initializeCostToGo', 'getNumStepsPerShot', '!executeLineSearch', '!acceptStep', '!lineSearchWorker',
                                   '!rolloutShotWorker', '!computeLQProblemWorker']},
                   pure={'*': ['getNumStepsPerShot']},
                   prep=lambda I, st: I.shared.update({'kTaken_', 'kCompleted_', 'alphaTaken_', 'alphaBestFound_', 'alphaExpBest_', 'alphaProcessed_', 'intermediateCostBest_',
                           'finalCostBest_', 'd_norm_', 'e_box_norm_', 'e_gen_norm_', 'lowestCost_', 'x_', 'xShot_', 'u_ff_', 'd_',
                           'substepsX_', 'substepsU_'}))


STAGEFNS = ('executeLQApproximation', 'rolloutSingleShot', 'executeLineSearch', 'computeLinearizedConstraints')


def threads(ctx):
    """locks, condition variables and tasks of the multi-threaded backend"""
    ctx.rule('along every path through the member functions of NLOCBackendMP (calls of members inlined): locks are balanced and never acquired '
             'twice or in opposite orders; a wait checks its condition again, holds exactly its mutex, and happens with no notification due; a '
             'notification comes after the mutex of its waiter has been acquired since the condition changed, and on every path on which the '
             'condition can have become true; a worker writes members that other workers access only under a common lock; the caller changes '
             'nothing between giving the task and the end of its wait; each published task makes a worker run the stage function of that task '
             'with its own number, and the task of the destructor ends it')
    D = DBM.load('nloc')
    name = 'locks'
    cls = next((k for k in D.records if k.startswith('ct::optcon::NLOCBackendMP<')), None)
    if cls is None:
        return ctx.undecided(name, 'no class NLOCBackendMP')
    try:
        A = locks.Analysis(D, cls, STAGEFNS)
        if not A.cvs:
            return ctx.undecided(name, 'no condition variables')
        A.run()
        if not A.bad and not A.unk:
            A.dispatch('workerTask_', 'workersActive_', {'performLineSearch': {'executeLineSearch'}, 'rolloutShots': {'rolloutSingleShot'},
                       'computeLQApproximation': {'executeLQApproximation', 'computeLinearizedConstraints'}}, '~NLOCBackendMP')
    except (locks.Unknown, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        return ctx.undecided(name, f'{type(e).__name__}: {e}')
    ctx.analysed(D, sorted(A.fns))
    ctx.count('lock and wait sites on paths', A.facts)
    ctx.count('accesses of members on paths', A.nacc)
    for fn, at, what in A.bad:
        ctx.violation(name, at, fn, what)
    if A.unk and not A.bad:
        ctx.undecided(name, '; '.join(sorted(set(A.unk))[:3]))
    elif not A.bad:
        ctx.ok(name, f'{len(A.roots)} entry points, {A.npath} final states, {A.facts} lock, wait and notify events on paths')


@prop('C25')
def c25(ctx):
    spec_prop(ctx, 'nloc', **OPTS['C25'])
    threads(ctx)
