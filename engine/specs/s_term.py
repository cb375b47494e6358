"""C15, C16, C17: termination criteria (src/termination.rs)"""
from core import *
from registry import prop, also
import terms as T
import s_history as H

def check(C):
    r = C.cache.get('check')
    if r is None:
        r = C.cache['check'] = C.run(C.fn('TerminationCheck', 'check_termination_criteria', sig=("TerminationCheck<'_>",)), limit=120)
    C.analysed.setdefault(r.body['p'], r.stats)
    return r

def reported(C, ret, name):
    """the condition under which the returned list holds the given reason"""
    p = C.T('TerminationReason'); v = C.vi(p, name)
    def f(x):
        if x is BOT: return BOT
        if x.op == 'ite': return ite(x.args[0] if isinstance(x.args[0], T.Node) and x.args[0].kind == 'bool' and x.args[0].op == 'ite' else boolterm(x.args[0]), f(x.args[1]), f(x.args[2]))
        if x.op != 'chunks': raise Undecided('the list of reasons has the form %s' % show(x)[:80])
        g = FALSE
        for c in x.args:
            gd, k, e = c.args
            g = b_or(g, b_and(gd, is_variant(e, p, v) if k == 'e' else f(e)))
        return g
    return f(ret)

NAMES = ('MaxFunctionEvals', 'MaxGenerations', 'MaxTime', 'FunTarget', 'TolFun', 'TolFunRel', 'TolFunHist', 'TolX', 'TolStagnation', 'TolXUp', 'NoEffectAxis', 'NoEffectCoord', 'TolConditionCov')

class V: pass
def vals(C, r):
    a = r.a[0]; F = C.F; v = V()
    v.P = F(a, 'parameters'); v.t = F(v.P, 'termination'); v.s = F(a, 'state'); v.h = F(a, 'history'); v.ind = F(a, 'individuals')
    v.mode = F(v.P, 'mode'); v.n = F(v.P, 'dim'); v.sigma = F(v.s, 'sigma')
    v.evals = F(a, 'current_function_evals'); v.created = F(a, 'time_created')
    return v

def opt(C, o, cond): return b_and(is_variant(o, OPT, 1), cond(C.some(o)))

def o_limits(C):
    r = check(C); v = vals(C, r); F = C.F
    for nm, o, have in (('MaxFunctionEvals', 'max_function_evals', v.evals), ('MaxGenerations', 'max_generations', F(v.s, 'generation')), ('MaxTime', 'max_time', app('elapsed', v.created, kind='nat'))):
        C.ob(nm, 'reported iff set and reached', reported(C, r.ret, nm), opt(C, F(v.t, o), lambda x: ge(have, x)), res=r)
def o_target(C):
    r = check(C); v = vals(C, r); F = C.F
    better = lambda x: C.any(seqlen(v.ind), lambda k: H.better(C, v.mode, F(C.sel(v.ind, k), 'value'), x))
    C.ob('FunTarget', 'reported iff set and some individual of the generation is strictly better', reported(C, r.ret, 'FunTarget'), opt(C, F(v.t, 'fun_target'), better), res=r)
def o_only(C):
    r = check(C)
    for nm in ('InvalidFunctionValue', 'PosDefCov'):
        C.ob('no.' + nm, 'never reported by the criteria', reported(C, r.ret, nm), FALSE, res=r)

def windows(C, r):
    """(label, rewriting, facts): the recorded history is shorter than, or at least as long as, the window"""
    v = vals(C, r); F = C.F
    past = add(num(10), ceil_usize(div(mul(num(30), v.n), F(v.P, 'lambda'))))
    t = sym('past10', 'nat'); e = sym('extra', 'nat')
    L = seqlen(F(v.h, 'best_function_values'))
    m1 = {sub(past, num(10)): t}
    return past, L, m1, {L: add(num(10), t, e)}, add(num(10), t)

def o_fun(C):
    r = check(C); v = vals(C, r); F = C.F
    past, L, m1, m2, W = windows(C, r)
    hist = F(v.h, 'best_function_values'); ind = v.ind
    n1 = sym('n1', 'nat'); two = {seqlen(ind): add(n1, ONE)}   # generations are not empty
    def rng(n, x):
        k = fresh('k', 'nat')
        s = T.seq(k, n, x(k))
        return sub(T.extreme(True, s), T.extreme(False, s))
    rh = rng(W, lambda k: C.sel(hist, k)); rc = rng(add(n1, ONE), lambda k: F(C.sel(ind, k), 'value'))
    f1 = F(v.h, 'first_median_function_value'); b1 = F(v.h, 'best_median_function_value')
    rel = mul(F(v.t, 'tol_fun_rel'), f_abs(sub(C.some(f1), C.some(b1))))
    spec = {'TolFunHist': lt(rh, F(v.t, 'tol_fun_hist')),
            'TolFun': b_and(lt(rh, F(v.t, 'tol_fun')), lt(rc, F(v.t, 'tol_fun'))),
            'TolFunRel': b_and(is_variant(f1, OPT, 1), is_variant(b1, OPT, 1), lt(rh, rel), lt(rc, rel))}
    for nm in ('TolFunHist', 'TolFun', 'TolFunRel'):
        g = reported(C, r.ret, nm)
        C.ob(nm + '.early', 'not reported before 10 + ceil(30 n / lambda) generations are recorded', g, FALSE, facts=[lt(L, past)], res=r)
        got = T.dropnan(subst(subst(subst(g, m1), m2), two))
        C.ob(nm, 'reported iff the recorded range over the last 10 + ceil(30 n / lambda) generations (and of this generation) is strictly below the tolerance', got, T.dropnan(spec[nm]), res=r)

def o_stagnation(C):
    r = check(C); v = vals(C, r); F = C.F
    g = reported(C, r.ret, 'TolStagnation')
    G = app('idiv', F(v.s, 'generation'), num(5), kind='nat')
    tol = F(v.t, 'tol_stagnation')
    hb, hm = F(v.h, 'best_function_values'), F(v.h, 'median_function_values')
    lb, lm = seqlen(hb), seqlen(hm)
    for lab, fs in (('', [le(G, num(20000)), lt(G, tol)]), ('.capped', [gt(G, num(20000)), lt(num(20000), tol)])):
        C.ob('TolStagnation.short' + lab, 'not reported while 20% of the generations (twenty thousand at most) is below tol_stagnation', g, FALSE, facts=fs, res=r)
    for lab, cond in (('all', lt(G, num(20000))), ('edge', eq(G, num(20000))), ('capped', gt(G, num(20000)))):
        e1 = sym('e1', 'nat'); e2 = sym('e2', 'nat'); u = sym('u', 'nat'); s = sym('s', 'nat')
        if lab == 'all':
            m0 = {floor_usize(mul(num(Q(3, 10)), G)): s, G: add(s, u)}
            gens = add(s, u)
            g1 = restrict_to(g, cond)
            g1 = subst(g1, {floor_usize(mul(num(Q(3, 10)), G)): s}); g1 = subst(g1, {G: gens})
            facts = [ge(gens, tol), lt(gens, num(20000))]; w = s
        else:
            g1 = subst(g, {G: num(20000)}) if lab == 'edge' else restrict_to(g, cond); gens = num(20000); w = num(6000)
            facts = [ge(num(20000), tol), cond]
        for ln, l in (('best', lb), ('median', lm)):
            C.ob('TolStagnation.%s.few.%s' % (lab, ln), 'not reported before the window is recorded', g1, FALSE, facts=facts + [lt(l, gens)], res=r)
        g1 = subst(subst(g1, {lb: add(gens, e1)}), {lm: add(gens, e2)})
        med = lambda h, f: app('median', C.seq(w, f), kind='real')
        def worse(h): return H.better(C, v.mode, med(h, lambda k: C.sel(h, add(k, sub(gens, w)))), med(h, lambda k: C.sel(h, k)))
        C.ob('TolStagnation.' + lab, 'reported iff the medians of the oldest and newest 30% of the window got worse under the mode, for best and median values', T.dropnan(g1), T.dropnan(b_and(worse(hb), worse(hm))), facts=facts, res=r)

def restrict_to(t, cond):
    """t with the single test cond taken as true"""
    if cond.op != 'ite' or cond.args[1:] not in ((TRUE, FALSE), (FALSE, TRUE)): return t
    at = cond.args[0]; v = cond.args[1] is TRUE; asg = {at: v}
    if at.op == 'ge':        # and the tests it decides
        b = T.numval(at.args[1])
        for x in T.atoms_of(t):
            if x.op == 'ge' and x.args[0] is at.args[0]:
                c = T.numval(x.args[1])
                if v and c <= b: asg[x] = True
                if not v and c >= b: asg[x] = False
    return T.restrict(t, asg)

def o_x(C):
    r = check(C); v = vals(C, r); F = C.F; t = v.t; n = v.n; sg = v.sigma
    cov = F(v.s, 'cov.cov'); pc = F(v.s, 'path_c')
    diag = lambda m, i: midx(m, i, i)
    tolx = F(t, 'tol_x')
    dims = lambda g: subst(g, {seqlen(pc): n, seqlen(F(v.s, 'mean')): n, **{seqlen(app('diag', F(v.s, 'cov.' + m), kind='mat')): n for m in ('cov', 'sqrt_eigenvalues', 'eigenvectors')}})
    C.ob('TolX', 'reported iff |sigma sqrt(C_ii)| and |sigma pc_i| are below tol_x for every i', dims(reported(C, r.ret, 'TolX')),
         b_and(C.all(n, lambda i: lt(f_abs(mul(sg, sqrt(diag(cov, i)))), tolx)), C.all(n, lambda i: lt(f_abs(mul(sg, select(pc, i, 'real'))), tolx))), res=r)
    ev = F(v.s, 'cov.sqrt_eigenvalues')
    k = fresh('k', 'nat'); ds = T.seq(k, n, midx(ev, k, k))
    big, small = T.extreme(True, ds), T.extreme(False, ds)
    cond = mul(power(big, 2), power(small, -2))
    C.ob('TolConditionCov', 'reported iff the condition number exceeds its tolerance or is not a normal number', dims(reported(C, r.ret, 'TolConditionCov')),
         b_or(b_not(boolterm(app('is_normal', cond, kind='bool'))), gt(cond, F(t, 'tol_condition_cov'))), res=r)
    # sigma is positive: the largest axis may be scaled before or after it is found
    ratio = div(sg, F(v.P, 'initial_sigma'))
    scaled = {T.extreme(True, T.seq(k, n, mul(c, midx(ev, k, k)))): mul(c, big) for c in (sg, ratio)}
    C.ob('TolXUp', 'reported iff sigma times the largest axis, over the initial step size, exceeds tol_x_up', subst(restrict_to(dims(reported(C, r.ret, 'TolXUp')), ge(n, ONE)), scaled),
         gt(div(mul(sg, big), F(v.P, 'initial_sigma')), F(t, 'tol_x_up')), res=r)
    i = app('irem', F(v.s, 'generation'), n, kind='nat')
    mean = F(v.s, 'mean')
    axis = mscale(select(F(v.s, 'cov.eigenvectors'), models.colix(i), 'mat'), mul(num(Q(1, 10)), sg, diag(ev, i)))
    C.ob('NoEffectAxis', 'reported iff a tenth of a standard deviation along the principal axis generation % n leaves the mean unchanged', dims(reported(C, r.ret, 'NoEffectAxis')),
         dims(models.vec_eq(mean, madd(mean, axis))), res=r)
    m = lambda i: select(mean, i, 'real')
    coord = lambda f: C.any(n, lambda i: eq(m(i), add(m(i), mul(num(Q(1, 5)), sg, f(diag(cov, i))))))
    C.ob('NoEffectCoord', 'reported iff a fifth of a standard deviation in some coordinate leaves the mean unchanged there', reported(C, r.ret, 'NoEffectCoord'),
         coord(sqrt), res=r, alt=('the standard deviation sqrt(C_ii) is replaced by the variance C_ii', coord(lambda x: x)))

A = ['real arithmetic; x == x + d is kept as a question about x and d']
prop('C15', 'the condition under which each limit is reported equals the documented condition', assume=['Instant::elapsed is the time since construction'] + A, nofeat=True)(o_limits)
also('C15')(o_target); also('C15')(o_only); also('C02')(o_target)
prop('C16', 'the condition under which each function-value criterion is reported equals the documented condition, window included', assume=['generations are not empty', 'the recorded best values hold no NaN (C08)'] + A, nofeat=True)(o_fun)
also('C16')(o_stagnation)
prop('C17', 'the condition under which each distribution criterion is reported equals the documented condition', assume=['the distribution has the configured dimension'] + A, nofeat=True)(o_x)
