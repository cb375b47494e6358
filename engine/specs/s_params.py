"""C09, C10, C11: validation, options, strategy parameters (src/lib.rs, src/options.rs, src/parameters)"""
from core import *
from registry import prop, also
from terms import scale
import s_access as SA

def built(C):
    r = C.cache.get('CMAES::new')
    if r is None: r = C.cache['CMAES::new'] = C.run(C.fn('CMAES', 'new', sig=('F', 'CMAESOptions')))
    C.analysed.setdefault(r.body['p'], r.stats)
    return r

def normal_facts(x):
    """what is_normal means for the order"""
    normal = boolterm(app('is_normal', x, kind='bool')); mp = num(Q("2.2250738585072014e-308")); mx = num(Q("1.7976931348623157e308"))
    return [b_or(b_not(normal), b_and(b_not(isnan(x)), b_or(ge(x, mp), le(x, neg(mp))))), b_or(normal, isnan(x), lt(x, mp), gt(x, mx))]
def valid(C, o):
    F = C.F; s = F(o, 'initial_step_size'); cm = F(o, 'cm')
    normal = lambda x: boolterm(app('is_normal', x, kind='bool'))
    facts = [f for x in (s, cm) for f in normal_facts(x)]
    chk = [('Dimensions', eq(seqlen(F(o, 'initial_mean')), ZERO)), ('PopulationSize', lt(F(o, 'population_size'), num(2))),
           ('InitialStepSize', b_not(b_and(normal(s), lt(ZERO, s)))), ('Cm', b_not(b_and(normal(cm), lt(ZERO, cm), le(cm, ONE))))]
    return chk, facts

@prop('C09', 'value graph of construction: the result is an error exactly under the documented conditions, with the first applicable error', nofeat=True,
      assume=['f64::is_normal is false for zero and NaN (its documented meaning)'])
def c09(C):
    r = built(C); chk, facts = valid(C, r.a[1])
    bad = b_or(*[c for n, c in chk])
    C.ob('rejects', 'fails exactly when a documented condition applies', is_variant(r.ret, RES, 1), bad, facts=facts, res=r)
    want = BOT
    for n, c in reversed(chk): want = ite(c, C.enum('InvalidOptionsError', n), want)
    C.ob('error', 'the first applicable error in the documented order', C.payload(r.ret, 1), want, facts=facts + [bad], res=r)
    for n, c in chk:
        C.ob('error.' + n, 'an option set with only this fault is rejected with its own error', r.ret, adt(RES, 1, C.enum('InvalidOptionsError', n), ty=r.ret.ty), facts=facts + [c] + [b_not(x) for m, x in chk if m != n], res=r)
    r2 = C.run(C.fn('CMAESOptions', 'build'), barriers=[C.bar('CMAES', 'new', 'cmaes_new', ('F', 'CMAESOptions')).handler()])
    C.ob('build', 'building is exactly the construction', r2.ret, C.bar('CMAES', 'new', 'cmaes_new', ('F', 'CMAESOptions'))(r2.a[1], r2.a[0]), res=r2)
    used = [e for e in r.events if e.kind in ('print', 'entropy', 'rng', 'evaluate')]
    C.ob('no_effects', 'a rejected option set prints and draws nothing', b_or(*[b_and(bad, e.guard) for e in used]), FALSE, facts=facts, res=r)

# ---------------------------------------------------------------- options
def given(x, a):
    """a value passed on, possibly through conversions"""
    while x is not a and x.op == 'app' and x.args[0] in ('Into::into', 'From::from'): x = x.args[1]
    return x is a
def defaults(C, n):
    N = NoneV()
    d = dict(mode=C.enum('Mode', 'Minimize'), population_size=add(num(4), floor_usize(mul(num(3), ln(n)))), constraints=N, max_resamples=Some(num(10)), weights=C.enum('Weights', 'Negative'),
             parallel_update=FALSE, cm=ONE, max_function_evals=N, max_generations=N, max_time=N, fun_target=N, tol_fun=num(Q(1, 10**12)), tol_fun_rel=ZERO, tol_fun_hist=num(Q(1, 10**12)),
             tol_x=N, tol_stagnation=N, tol_x_up=num(10**8), tol_condition_cov=num(10**14), seed=N, print_gap_evals=N)
    if C.plot: d['plot_options'] = N
    return d
SET = {'mode': 0, 'weights': 0, 'population_size': 0, 'max_resamples': 0, 'parallel_update': 0, 'cm': 0, 'tol_fun': 0, 'tol_fun_rel': 0, 'tol_fun_hist': 0, 'tol_x_up': 0, 'tol_condition_cov': 0, 'initial_mean': 2, 'initial_step_size': 0,
       'max_function_evals': 1, 'max_generations': 1, 'max_time': 1, 'fun_target': 1, 'tol_x': 1, 'tol_stagnation': 1, 'seed': 1}
def only(C, name, r, field, val, ty='CMAESOptions', base=None, key=None):
    """the result is the receiver with one field replaced"""
    base = r.a[0] if base is None else base
    for f in C.fields(ty):
        got = C.F(r.ret, f)
        if f == field: C.ob('%s' % (key or name), 'the option is set to exactly the given value', got, val, res=r)
        elif got is not C.F(base, f): C.ob('%s.%s' % (name, f), 'no other option changes', got, C.F(base, f), res=r, free=('Into::into',))

def same_elems(C, key, what, got, src, r):
    i = sym('i', 'nat')
    C.ob(key + '.len', what, seqlen(got), seqlen(src), res=r)
    C.ob(key, what, C.sel(got, i), C.sel(src, i), facts=[lt(i, seqlen(src))], res=r)

prop('C10', 'value graphs of the option constructor, every setter and the optimizer construction: every stored value equals the given or documented one', nofeat=True)

def o_defaults(C, names=None):
    want = lambda k: names is None or k in names
    F = C.F
    r = C.run(C.fn('CMAESOptions', 'new'))
    step = r.a[1]; mean = F(r.ret, 'initial_mean')
    d = defaults(C, seqlen(mean))
    if want('initial_mean'): C.fact('default.initial_mean', 'the given mean, converted to a vector', given(mean, r.a[0]), r.body['p'], got=show(mean)[:300], want='mean.into()')
    if want('initial_step_size'): C.ob('default.initial_step_size', 'the given value', F(r.ret, 'initial_step_size'), step, res=r)
    for k, v in d.items():
        if want(k): C.ob('default.' + k, 'the documented default', F(r.ret, k), v, res=r)
    for f in C.fields('CMAESOptions'):
        if names is None and f not in d and f not in ('initial_mean', 'initial_step_size'): C.undecided('default.' + f, 'every option has a documented default', 'an option this specification does not know')

def o_setters(C, names=None):
    F = C.F
    want = lambda k: names is None or k in names
    for nm, how in SET.items():
        if not want(nm): continue
        try:
            r = C.run(C.fn('CMAESOptions', nm))
            v = Some(r.a[1]) if how == 1 else r.a[1]
            if how == 2:
                v = F(r.ret, nm)
                C.fact('set.%s.given' % nm, 'the given mean, converted to a vector', given(v, r.a[1]), r.body['p'], got=show(v)[:300], want='mean.into()')
            only(C, 'set.' + nm, r, nm, v)
        except Undecided as e: C.undecided('set.' + nm, 'each setter changes its own option only', e)
    if want('constraints'):
        r = C.run(C.fn('CMAESOptions', 'bounds'))
        c = F(r.ret, 'constraints')
        C.ob('set.bounds.some', 'bounds are set', is_variant(c, OPT, 1), TRUE, res=r)
        C.ob('set.bounds', 'the bounds are the given ones', C.some(c), C.struct('Bounds', lower=r.a[1], upper=r.a[2]), res=r)
        only(C, 'set.bounds', r, 'constraints', c)
    if want('print_gap_evals'):
        r = C.run(C.fn('CMAESOptions', 'enable_printing')); only(C, 'set.enable_printing', r, 'print_gap_evals', Some(r.a[1]))
    if want('plot_options') and C.plot:
        r = C.run(C.fn('CMAESOptions', 'enable_plot')); only(C, 'set.enable_plot', r, 'plot_options', Some(r.a[1]))

def o_reach(C, names=None):
    """every option reaches the place that uses it"""
    want = lambda k: names is None or k in names
    F = C.F; r = built(C); f, o = r.a; v = C.payload(r.ret, 0)
    chk, facts = valid(C, o); ok = [b_not(c) for n, c in chk] + facts
    n = seqlen(F(o, 'initial_mean')); lam = F(o, 'population_size')
    def ob(opt, dst, val, what='the given option, unchanged'):
        if want(opt): C.ob('reach.' + dst, what, F(v, dst), val, facts=ok, res=r)
    ob('initial_mean', 'sampler.dim', n); ob('initial_mean', 'parameters.dim', n)
    for k in ('constraints', 'max_resamples', 'population_size'): ob(k, 'sampler.' + k, F(o, k))
    ob('objective_function', 'sampler.objective_function', f, 'the given objective function')
    ob('initial_mean', 'state.mean', F(o, 'initial_mean')); ob('initial_step_size', 'state.sigma', F(o, 'initial_step_size'))
    for k in ('mode', 'cm', 'parallel_update'): ob(k, 'parameters.' + k, F(o, k))
    ob('population_size', 'parameters.lambda', lam); ob('initial_step_size', 'parameters.initial_sigma', F(o, 'initial_step_size')); ob('weights', 'parameters.weights.setting', F(o, 'weights'))
    ob('print_gap_evals', 'print_gap_evals', F(o, 'print_gap_evals'))
    for k in SA.TERM:
        if k not in ('tol_x', 'tol_stagnation'): ob(k, 'parameters.termination.' + k, F(o, k))
    if C.plot and want('plot_options'):
        pl = F(v, 'plot'); po = F(o, 'plot_options')
        C.ob('reach.plot', 'a plot exactly when enabled', is_variant(pl, OPT, 1), is_variant(po, OPT, 1), facts=ok, res=r)
        import s_cmaes as SC
        r = C.run(C.fn('CMAES', 'new', sig=('F', 'CMAESOptions')), barriers=[C.bar('Plot', 'add_data_point', 'add_point', ('&mut Plot', 'usize', '&State', '&History')).handler()])
        pl = F(C.payload(r.ret, 0), 'plot'); n0 = find(pl, lambda t: t.op == 'adt' and t.args[0] == C.T('Plot'))
        if not n0: C.undecided('reach.plot.options', 'the given plot options', 'no plot value found')
        for x in n0:
            C.ob('reach.plot.options', 'the given plot options', F(x, 'options'), C.some(po), facts=ok + [is_variant(po, OPT, 1)], res=r)
            C.ob('reach.plot.mode', 'the given mode', F(x, 'mode'), F(o, 'mode'), facts=ok + [is_variant(po, OPT, 1)], res=r)
for _f in (o_defaults, o_setters, o_reach): also('C10')(_f)
def o_derived_tol(C, names=('tol_x', 'tol_stagnation')):
    F = C.F; r = built(C); o = r.a[1]; v = C.payload(r.ret, 0)
    chk, facts = valid(C, o); ok = [b_not(c) for n, c in chk] + facts
    n = seqlen(F(o, 'initial_mean')); lam = F(o, 'population_size')
    t = F(o, 'tol_x')
    if 'tol_x' in names: C.ob('tol_x', 'the given tolerance or 1e-12 times the initial step size', F(v, 'parameters.termination.tol_x'), ite(is_variant(t, OPT, 1), C.some(t), scale(F(o, 'initial_step_size'), Q(1, 10**12))), facts=ok, res=r)
    t = F(o, 'tol_stagnation')
    if 'tol_stagnation' in names: C.ob('tol_stagnation', 'the given tolerance or 100 + 100 n^1.5 / lambda, rounded up', F(v, 'parameters.termination.tol_stagnation'),
         ite(is_variant(t, OPT, 1), C.some(t), add(num(100), ceil_usize(mul(num(100), power(n, Q(3, 2)), inv(lam))))), facts=ok, res=r)
also('C10', 'C11')(o_derived_tol)

def flow(pid, *names):
    """the options a property speaks of, from the setter to the place that uses them"""
    def part(C): o_defaults(C, names); o_setters(C, names); o_reach(C, names); o_derived_tol(C, names)
    part.__name__ = 'options'
    also(pid)(part)
flow('C15', 'max_function_evals', 'max_generations', 'max_time', 'fun_target', 'mode')
flow('C16', 'tol_fun', 'tol_fun_rel', 'tol_fun_hist', 'tol_stagnation', 'mode')
flow('C17', 'tol_x', 'tol_x_up', 'tol_condition_cov')
flow('C06', 'initial_mean', 'initial_step_size', 'population_size')
flow('C07', 'constraints', 'max_resamples')
flow('C02', 'mode'); flow('C13', 'weights'); flow('C12', 'cm', 'initial_mean', 'initial_step_size')
flow('C21', 'plot_options'); flow('C23', 'print_gap_evals'); flow('C04', 'seed')

# ---------------------------------------------------------------- strategy parameters
A11 = ['real arithmetic', 'the denominators of the documented formulas are not zero']
def raw(lam):
    """weight of rank k (from 0) before normalisation"""
    return lambda k: sub(ln(scale(add(lam, ONE), Q(1, 2))), ln(add(k, ONE)))
def mass(C, w, lo, hi):
    s = C.sum(sub(hi, lo), lambda k: w(add(k, lo))); q = C.sum(sub(hi, lo), lambda k: power(w(add(k, lo)), 2))
    return mul(power(s, 2), inv(q))
def formulas(C, n, me):
    c1 = mul(num(2), inv(add(power(add(n, num(Q(13, 10))), 2), me)))
    x = mul(num(2), add(me, num(-2), inv(me)), inv(add(power(add(n, num(2)), 2), me)))
    cs = mul(add(me, num(2)), inv(add(n, me, num(5))))
    d = sub(sqrt(mul(sub(me, ONE), inv(add(n, ONE)))), ONE)
    return dict(cc=mul(add(num(4), mul(me, inv(n))), inv(add(n, num(4), mul(num(2), me, inv(n))))), c1=c1, cmu=T.imin(sub(ONE, c1), x), cs=cs,
                damp_s=add(ONE, cs, mul(num(2), ite(gt(d, ZERO), d, ZERO))))

@prop('C11', 'value graph of the strategy parameters equals the documented formulas, for even and odd population sizes and each weights setting', nofeat=True, assume=A11)
def c11(C):
    F = C.F; fid = C.fn('Parameters', 'from_options', sig=('&CMAESOptions', 'u64')); m = sym('m', 'nat'); k = sym('k', 'nat')
    for setting in ('Positive', 'Negative', 'Uniform'):
        for odd in (0, 1):
            lam = add(mul(num(2), m), num(odd)); tag = '%s.%s' % (setting, 'odd' if odd else 'even')
            r = C.run(fid, args={0: lambda s: C.struct('CMAESOptions', base=s, weights=C.enum('Weights', setting), population_size=lam)})
            o = r.a[0]; n = seqlen(F(o, 'initial_mean')); fx = [ge(m, ONE), ge(n, ONE)]
            me = m if setting == 'Uniform' else mass(C, raw(lam), ZERO, m)
            C.ob('mu.' + tag, 'half of the population, rounded down', F(r.ret, 'mu'), m, facts=fx, res=r)
            C.ob('mu_eff.' + tag, 'the variance-effective selection mass', F(r.ret, 'mu_eff'), me, facts=fx, res=r)
            fs = formulas(C, n, F(r.ret, 'mu_eff'))
            for nm, w in fs.items(): C.ob('%s.%s' % (nm, tag), 'the documented formula', F(r.ret, nm), w, facts=fx, res=r)
            W = F(r.ret, 'weights.weights')
            cnt = lam if setting == 'Negative' else m
            C.ob('weights.count.' + tag, 'one weight per individual with the negative setting, one per selected individual otherwise', seqlen(W), cnt, facts=fx, res=r)
            got = C.sel(W, k)
            if setting == 'Uniform':
                C.ob('weights.' + tag, 'equal weights that sum to one', got, inv(m), facts=fx + [lt(k, m)], res=r); continue
            w = raw(lam); pos = C.sum(m, w)
            C.ob('weights.positive.' + tag, 'the logarithmic weights divided by their sum', got, mul(w(k), inv(pos)), facts=fx + [lt(k, m), lt(k, lam)], res=r)
            if setting == 'Negative':
                if odd: C.ob('weights.middle.' + tag, 'the weight of the middle rank is zero', got, ZERO, facts=fx + [eq(k, m), lt(k, lam)], res=r)
                try: negative(C, tag, m, odd, lam, w, me)
                except Undecided as e: C.undecided('weights.negative.' + tag, 'the negative weights', e)

def negative(C, tag, m, odd, lam, w, me):
    """the final weights as a function of the learning rates"""
    F = C.F; sig = ('InitialWeights', 'usize', 'f64', 'f64'); k = sym('k', 'nat')
    fin = C.bar('InitialWeights', 'finalize', 'finalize', sig)
    q = C.run(C.fn('Parameters', 'from_options', sig=('&CMAESOptions', 'u64')), barriers=[fin.handler()],
              args={0: lambda s: C.struct('CMAESOptions', base=s, weights=C.enum('Weights', 'Negative'), population_size=lam)})
    n = seqlen(F(q.a[0], 'initial_mean'))
    iw = C.run(C.fn('InitialWeights', 'new', sig=('usize', 'Weights')), args={0: lam, 1: C.enum('Weights', 'Negative')}).ret
    C.ob('weights.rates.' + tag, 'the final weights are computed from the initial ones and the learning rates', F(q.ret, 'weights'), fin(iw, n, F(q.ret, 'c1'), F(q.ret, 'cmu')), facts=[ge(m, ONE), ge(n, ONE)], res=q)
    r = C.run(fin.bid, args={0: iw}); x, n, c1, cmu = r.a
    got = C.sel(F(r.ret, 'weights'), k); lo = add(m, num(odd)); fx = [ge(m, ONE), ge(n, ONE)]
    mem = mass(C, w, m, lam)
    a = T.imin(add(ONE, mul(c1, inv(cmu))), T.imin(add(ONE, mul(num(2), mem, inv(add(me, num(2))))), mul(sub(sub(ONE, c1), cmu), inv(mul(n, cmu)))))
    ng = f_abs(C.sum(sub(lam, lo), lambda j: w(add(j, lo))))
    C.ob('weights.negative.' + tag, 'the negative logarithmic weights scaled to the smallest admissible sum', got, mul(w(k), a, inv(ng)), facts=fx + [ge(k, lo), ge(k, m), lt(k, lam)], res=r)

def o_order(C):
    """positive weights sum to one and do not increase with the rank: follows from the formula, checked on it"""
    m = sym('m', 'nat'); k = sym('k', 'nat')
    for odd in (0, 1):
        w = raw(add(mul(num(2), m), num(odd)))
        C.fact('weights.order.%d' % odd, 'the specified weights decrease with the rank', b_and(lt(w(k), w(add(k, ONE)))) is FALSE, 'specification')
also('C11')(o_order)
for f in (SA.par_access,): also('C10', 'C11')(f)
