"""C19, C01, C02: value histories and best individuals (src/history.rs), the mode (src/mode.rs)"""
from core import *
from registry import prop, also
import s_sampling as SS, s_cmaes as SC

MAXLEN = num(20000)
def update(C):
    r = C.cache.get('History::update')
    if r is None:
        r = C.cache['History::update'] = C.run(C.fn('History', 'update', sig=('&mut History', 'Mode', '&[EvaluatedPoint]')))
    C.analysed.setdefault(r.body['p'], r.stats)
    return r

def better(C, mode, a, b):
    return ite(C.isv(mode, 'Mode', 'Minimize'), b_and(lt(a, b), b_not(isnan(sub(a, b)))), b_and(gt(a, b), b_not(isnan(sub(a, b)))))
def best2(C, mode, a, b):
    return ite(C.isv(mode, 'Mode', 'Minimize'), ite(lt(a, b), a, b), ite(lt(b, a), a, b))

def values(C, r):
    """(name, best value, median) of the generation for an even and an odd number 2m (+1) of individuals"""
    h, mode, ind = r.a
    val = lambda k: C.F(C.sel(ind, k), 'value')
    m = sym('m', 'nat'); L = seqlen(ind)
    even = {L: mul(num(2), m)}; odd = {L: add(mul(num(2), m), ONE)}
    v = lambda k: val(k)
    return [('even', even, scale(add(v(sub(m, ONE)), v(m)), Q(1, 2)), [ge(m, ONE)]), ('odd', odd, v(m), [])]
from terms import scale

def o_values(C):
    r = update(C); h, mode, ind = r.a; p = r.post(0)
    val0 = C.F(C.sel(ind, ZERO), 'value')
    k = sym('k', 'nat')
    for nm, what in (('best_function_values', 'best'), ('median_function_values', 'median')):
        old = C.F(h, nm); new = C.F(p, nm); n = seqlen(old)
        inv_ = [le(n, MAXLEN)]
        C.ob(nm + '.length', 'one entry more, twenty thousand at most', seqlen(new), ite(lt(n, MAXLEN), add(n, ONE), MAXLEN), facts=inv_, res=r)
        inside = b_and(lt(k, add(n, ONE)), lt(k, MAXLEN), *inv_)
        got = C.sel(new, k)
        prev = C.sel(old, sub(k, ONE))
        if what == 'best':
            C.ob(nm, 'the generation\'s best value in front, then the previous entries in order', got, ite(eq(k, ZERO), val0, prev), facts=[inside], res=r)
        else:
            for lab, sb, med, fx in values(C, r):
                C.ob('%s.%s' % (nm, lab), 'the generation\'s median in front, then the previous entries in order', subst(got, sb), ite(eq(k, ZERO), med, prev), facts=[inside] + fx, res=r)

def o_medians(C):
    r = update(C); h, mode, ind = r.a; p = r.post(0)
    for lab, sb, med, fx in values(C, r):
        o = C.F(h, 'first_median_function_value')
        C.ob('first_median.' + lab, 'the first recorded median is kept', subst(C.F(p, 'first_median_function_value'), sb), ite(is_variant(o, OPT, 1), o, Some(med)), facts=fx, res=r)
        o = C.F(h, 'best_median_function_value')
        C.ob('best_median.' + lab, 'the best median under the mode', subst(C.F(p, 'best_median_function_value'), sb),
             ite(is_variant(o, OPT, 1), Some(best2(C, mode, C.some(o), med)), Some(med)), facts=fx, res=r, nan=False)

def o_best(C):
    r = update(C); h, mode, ind = r.a; p = r.post(0)
    first = C.sel(ind, ZERO)
    cur = C.struct('Individual', point=C.F(first, 'point'), value=C.F(first, 'value'))
    C.ob('current_best', 'the first individual of the generation, point and value', C.F(p, 'current_best_individual'), Some(cur), res=r)
    o = C.F(h, 'overall_best_individual')
    C.ob('overall_best', 'replaced exactly when the generation\'s best is strictly better under the mode', C.F(p, 'overall_best_individual'),
         ite(is_variant(o, OPT, 1), ite(better(C, mode, C.F(cur, 'value'), C.F(C.some(o), 'value')), Some(cur), o), Some(cur)), res=r)

def o_new(C, names):
    r = C.run(C.fn('History', 'new'))
    for nm in names:
        C.ob('init.' + nm, 'empty at the start', C.F(r.ret, nm), EMPTY if nm.endswith('values') else NoneV(), res=r)
def o_new_best(C): o_new(C, ('current_best_individual', 'overall_best_individual'))
def o_new_values(C): o_new(C, ('best_function_values', 'median_function_values', 'first_median_function_value', 'best_median_function_value'))

def access(C, ty, names, base=None):
    for nm in names:
        path = nm if isinstance(nm, str) else nm[1]
        nm = nm if isinstance(nm, str) else nm[0]
        r = C.run(C.fn(ty, nm))
        C.ob('%s.%s' % (ty, nm), 'returns the stored value', r.ret, C.F(r.a[0], path), res=r)
def o_access_best(C):
    access(C, 'History', ['current_best_individual', 'overall_best_individual'])
    access(C, 'CMAES', [('current_best_individual', 'history.current_best_individual'), ('overall_best_individual', 'history.overall_best_individual')])
def o_access_values(C):
    access(C, 'History', ['best_function_values', 'median_function_values', 'first_median_function_value', 'best_median_function_value'])
    if C.plot:
        r = C.run(C.fn('History', 'current_median_function_value')); v = C.F(r.a[0], 'median_function_values')
        C.ob('History.current_median', 'the newest recorded median, if any', r.ret, ite(ge(seqlen(v), ONE), Some(C.sel(v, ZERO)), NoneV()), res=r)

def o_order(C):
    for n, r in SS.each(C): SS.ordering(C, n, r)

A = ['generations are non-empty (population_size >= 2, decided by C09)', 'history lengths never exceed twenty thousand (the invariant the update itself keeps)', 'real arithmetic']
prop('C19', 'the histories after an update equal the documented sequence, entry by entry; a step updates them exactly once', assume=A, nofeat=True)(o_values)
for f in (o_medians, o_new_values, o_access_values, SC.o_history, SC.o_once): also('C19')(f)
prop('C01', 'the best individuals after an update equal the documented selection; individuals arrive sorted best first; every report reads them', assume=A + ['ties keep sampling order (slice::sort_by is stable)'], nofeat=True)(o_best)
for f in (o_order, o_new_best, o_access_best, SC.o_history, SC.o_ret, SC.o_run): also('C01')(f)

# ---------------------------------------------------------------- mode
@prop('C02', 'the three comparison functions equal the documented order for all values, NaN included; every comparison of objective values uses it', assume=['real arithmetic with NaN as a separate value'], nofeat=True)
def c02_mode(C):
    O = lambda n: C.enum('Ordering', n)
    r = C.run(C.fn('Mode', 'is_better', sig=('&Mode', 'f64', 'f64'))); m, a, b = r.a
    C.ob('is_better', 'strictly better, never true for NaN', r.ret, better(C, m, a, b), res=r, nan=True)
    r = C.run(C.fn('Mode', 'sort_cmp', sig=('&Mode', 'f64', 'f64'))); m, a, b = r.a
    nn = isnan(sub(a, b))
    mn = ite(lt(a, b), O('Less'), ite(lt(b, a), O('Greater'), O('Equal')))
    mx = ite(lt(b, a), O('Less'), ite(lt(a, b), O('Greater'), O('Equal')))
    C.ob('sort_cmp', 'better values first', r.ret, ite(C.isv(m, 'Mode', 'Minimize'), mn, mx), res=r)
    r = C.run(C.fn('Mode', 'choose_best', sig=('&Mode', 'f64', 'f64'))); m, a, b = r.a
    C.ob('choose_best', 'the better of two values', r.ret, best2(C, m, a, b), res=r, nan=False)
    r = C.run(C.fn('Mode', 'default', trait='Default'))
    C.ob('default', 'minimization', r.ret, C.enum('Mode', 'Minimize'), res=r)
for f in (o_order, o_best, o_medians): also('C02')(f)
