"""C20: accessors of the optimizer, its parameters, state and individuals"""
from core import *
from registry import prop, also
import s_history as SH, s_plot as SP

def one(C, key, f, want, what='returns the quantity it names'):
    """f: (type, function, signature); want: Res -> term"""
    try:
        r = C.run(C.fn(*f))
        C.ob(key, what, r.ret, want(r), res=r)
    except Undecided as e: C.undecided(key, what, e)

@prop('C20', 'value graph of every accessor equals the stored or derived quantity it is documented to return', nofeat=True)
def c20(C):
    F = C.F
    for nm, p in (('parameters', 'parameters'), ('generation', 'state.generation'), ('function_evals', 'sampler.function_evals'), ('mean', 'state.mean'), ('covariance_matrix', 'state.cov.cov'),
                  ('sigma', 'state.sigma'), ('current_best_individual', 'history.current_best_individual'), ('overall_best_individual', 'history.overall_best_individual'),
                  ('time_created', 'time_created'), ('into_objective_function', 'sampler.objective_function')):
        one(C, 'CMAES.' + nm, ('CMAES', nm), lambda r: F(r.a[0], p))
    one(C, 'CMAES.axis_ratio', ('CMAES', 'axis_ratio'), lambda r: ratio(C, F(r.a[0], 'state')))
    one(C, 'State.axis_ratio', ('State', 'axis_ratio'), lambda r: ratio(C, r.a[0]))
    r = C.run(C.fn('CMAES', 'eigenvalues')); D = F(r.a[0], 'state.cov.sqrt_eigenvalues'); i = sym('i', 'nat')
    C.ob('CMAES.eigenvalues', 'the squares of the square-rooted eigenvalues, in the same order', C.sel(r.ret, i), power(midx(D, i, i), 2), facts=[lt(i, SP.nrows(D))], res=r)
    C.ob('CMAES.eigenvalues.count', 'one per dimension', seqlen(r.ret), seqlen(SP.diagv(D)), res=r)
    r = C.run(C.fn('CMAES', 'elapsed')); el = find(r.ret, lambda t: t.op == 'app' and 'elapsed' in str(t.args[0]))
    C.fact('CMAES.elapsed', 'the time since creation', r.ret.op == 'app' and bool(el) and any(x is F(r.a[0], 'time_created') for x in r.ret.args), r.body['p'], got=show(r.ret)[:200], want='time_created.elapsed()', undecided=None if el else 'no elapsed time found')
    if C.plot:
        one(C, 'CMAES.get_plot', ('CMAES', 'get_plot'), lambda r: F(r.a[0], 'plot'))
        one(C, 'CMAES.get_mut_plot', ('CMAES', 'get_mut_plot'), lambda r: F(r.a[0], 'plot'))
    for nm, p in (('generation', 'generation'), ('mean', 'mean'), ('cov', 'cov.cov'), ('cov_eigenvectors', 'cov.eigenvectors'), ('cov_sqrt_eigenvalues', 'cov.sqrt_eigenvalues'),
                  ('cov_transform', 'cov.transform'), ('sigma', 'sigma'), ('path_c', 'path_c')):
        one(C, 'State.' + nm, ('State', nm), lambda r: F(r.a[0], p))
    par_access(C)
    for nm in ('point', 'unscaled_step', 'value'): one(C, 'EvaluatedPoint.' + nm, ('EvaluatedPoint', nm), lambda r: F(r.a[0], nm))
    one(C, 'Sampler.function_evals', ('Sampler', 'function_evals'), lambda r: F(r.a[0], 'function_evals'))
    one(C, 'Sampler.into_objective_function', ('Sampler', 'into_objective_function'), lambda r: F(r.a[0], 'objective_function'))
    for nm in ('current_best_individual', 'overall_best_individual', 'best_function_values', 'median_function_values', 'first_median_function_value', 'best_median_function_value'):
        one(C, 'History.' + nm, ('History', nm), lambda r: F(r.a[0], nm))

TERM = ('max_function_evals', 'max_generations', 'max_time', 'fun_target', 'tol_fun', 'tol_fun_rel', 'tol_fun_hist', 'tol_x', 'tol_stagnation', 'tol_x_up', 'tol_condition_cov')
def par_access(C):
    for nm in ('mode', 'dim', 'lambda', 'mu', 'initial_sigma', 'mu_eff', 'cc', 'c1', 'cs', 'cmu', 'cm', 'damp_s', 'seed', 'parallel_update'):
        one(C, 'Parameters.' + nm, ('Parameters', nm), lambda r: C.F(r.a[0], nm))
    one(C, 'Parameters.weights', ('Parameters', 'weights'), lambda r: C.F(r.a[0], 'weights.weights'))
    one(C, 'Parameters.weights_setting', ('Parameters', 'weights_setting'), lambda r: C.F(r.a[0], 'weights.setting'))
    for nm in TERM: one(C, 'Parameters.' + nm, ('Parameters', nm), lambda r: C.F(r.a[0], 'termination.' + nm))
def ratio(C, st):
    d = SP.diagv(C.F(st, 'cov.sqrt_eigenvalues'))
    return mul(T.extreme(True, d), inv(T.extreme(False, d)))

def o_built_function(C):
    """construction stores the given function, sampling keeps it"""
    r = C.run(C.fn('Sampler', 'new'))
    C.ob('Sampler.new.objective', 'the given function is stored', C.F(r.ret, 'objective_function'), r.a[4], res=r)
also('C20')(o_built_function)
@also('C03')
def o_counts(C):
    F = C.F
    one(C, 'CMAES.generation', ('CMAES', 'generation'), lambda r: F(r.a[0], 'state.generation'))
    one(C, 'CMAES.function_evals', ('CMAES', 'function_evals'), lambda r: F(r.a[0], 'sampler.function_evals'))
    one(C, 'Sampler.function_evals', ('Sampler', 'function_evals'), lambda r: F(r.a[0], 'function_evals'))
