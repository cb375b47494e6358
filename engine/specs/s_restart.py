"""C24 to C29: restarts (src/restart)"""
from core import *
from registry import prop, also
from terms import scale
import s_params as SP

# ---------------------------------------------------------------- the three strategies
SN = ('Local', 'IPOP', 'BIPOP')
def strategy(C, name):
    key = 'strategy:' + name
    r = C.cache.get(key)
    if r is None:
        nb = C.bar('CMAES', 'new', 'cmaes_new', ('F', 'CMAESOptions'))
        r = C.cache[key] = C.run(C.fn(name, 'next_run', trait='Strategy'), barriers=[nb.handler()])
    C.analysed.setdefault(r.body['p'], r.stats)
    return r

class S: pass
def parts(C, name):
    """the single optimizer construction and the single execution of the run callback"""
    r = strategy(C, name); s = S(); s.r = r; s.a = r.a
    new = r.ev('call', 'cmaes_new'); ap = r.ev('apply')
    n_new, n_ap = count(new), count(ap)
    s.n_new, s.n_ap = n_new, n_ap
    s.f = BOT; s.o = BOT
    for e in new:
        s.f = ite(e.guard, e.args[0], s.f); s.o = ite(e.guard, e.args[1], s.o)
    nb = C.bar('CMAES', 'new', 'cmaes_new', ('F', 'CMAESOptions'))
    s.built = nb(s.f, s.o)
    s.ok = is_variant(s.built, RES, 0)
    s.state = C.F(r.ret, '0'); s.reasons = C.F(r.ret, '1'); s.control = C.F(r.ret, '2')
    s.evals = C.F(C.F(s.state, 'sampler'), 'function_evals')
    s.self = r.post(0)
    return s
def runs_once(C, name, s):
    a = s.a
    C.ob(name + '.one_optimizer', 'one optimizer is constructed per run', s.n_new, ONE, res=s.r)
    C.ob(name + '.one_run', 'the run is executed exactly once', care_ok(s, s.n_ap), ONE, facts=[s.ok], res=s.r)
    C.ob(name + '.function', 'with the given objective function', s.f, a[3], res=s.r)
    opt = C.payload(s.built, 0)
    C.ob(name + '.state', 'the optimizer that ran is returned', s.state, T.app('post0:apply', a[4], opt, kind=s.state.kind, ty=s.state.ty), facts=[s.ok], res=s.r)
    C.ob(name + '.reasons', 'with the termination reasons of that run', s.reasons, C.F(data(C, s, opt), 'reasons'), facts=[s.ok], res=s.r)
def care_ok(s, x): return restrict(x, {s.ok: True}) if not isinstance(s.ok, bool) else x
def data(C, s, opt):
    """the value the run callback returned"""
    ds = [t for t in find(s.reasons, lambda t: t.op == 'app' and t.args[0] == 'apply')]
    if not ds: raise Undecided('the result of the run callback was not found')
    return T.app('apply', s.a[4], opt, kind=ds[0].kind, ty=ds[0].ty)
def options(C, name, s, want):
    """every option of the run: specified ones as given in want, all others those of the caller"""
    for f in C.fields('CMAESOptions'):
        got = C.F(s.o, f)
        if f in want:
            if want[f] is not None: C.ob('%s.option.%s' % (name, f), 'configured by the strategy as documented', got, want[f], res=s.r, nan=False)
        else: C.ob('%s.option.%s' % (name, f), 'left as the restarter configured it', got, C.F(s.a[1], f), res=s.r)
def control(C, name, s, stop, facts=()):
    C.ob(name + '.control', 'the strategy stops exactly after its last run', s.control, ite(stop, C.enum('RestartControl', 'MaxRunsReached'), C.enum('RestartControl', 'Continue')), facts=[s.ok, *facts], res=s.r, free=('apply',))
def becomes(C, name, s, want, base=None, facts=()):
    base = s.a[0] if base is None else base
    for f in C.fields(name):
        C.ob('%s.after.%s' % (name, f), 'bookkeeping of the strategy' if f in want else 'a run leaves it alone', C.F(s.self, f), want.get(f, C.F(base, f)), facts=[s.ok, *facts], res=s.r, free=('apply',))

@prop('C26', 'value graph of a local restart: step size, untouched options, run count and the stop signal', nofeat=True)
def c26(C):
    s = parts(C, 'Local'); F = C.F; a = s.a
    runs_once(C, 'Local', s)
    options(C, 'Local', s, dict(initial_step_size=mul(num(Q(1, 100)), a[2], F(a[0], 'initial_step_size_factor'))))
    n = add(F(a[0], 'runs'), ONE)
    control(C, 'Local', s, ge(n, F(a[0], 'max_runs')))
    becomes(C, 'Local', s, dict(runs=n))
    r = C.run(C.fn('Local', 'new'))
    v = C.payload(r.ret, 0); ok = [is_variant(r.ret, RES, 0)]
    C.ob('Local.new.runs', 'no run has been made', F(v, 'runs'), ZERO, facts=ok, res=r)
    C.ob('Local.new.max_runs', 'the given number of runs', F(v, 'max_runs'), r.a[0], facts=ok, res=r)
    r = C.run(C.fn('Local', 'has_zero_max_runs', trait='Strategy'))
    C.ob('Local.zero', 'zero runs configured: no run is made', r.ret, eq(F(r.a[0], 'max_runs'), ZERO), res=r)

@prop('C27', 'value graph of an IPOP restart: step size, population, multiplier recurrence and the stop signal', nofeat=True)
def c27(C):
    s = parts(C, 'IPOP'); F = C.F; a = s.a
    runs_once(C, 'IPOP', s)
    m = F(a[0], 'current_multiplier')
    options(C, 'IPOP', s, dict(initial_step_size=scale(a[2], Q(1, 2)), population_size=mul(F(a[1], 'population_size'), m)))
    n = add(F(a[0], 'runs'), ONE)
    control(C, 'IPOP', s, ge(n, num(10)))
    becomes(C, 'IPOP', s, dict(runs=n, current_multiplier=mul(m, F(a[0], 'increase_factor'))))
    r = C.run(C.fn('IPOP', 'new'))
    v = C.payload(r.ret, 0); ok = [is_variant(r.ret, RES, 0)]
    C.ob('IPOP.new.runs', 'no run has been made', F(v, 'runs'), ZERO, facts=ok, res=r)
    C.ob('IPOP.new.current_multiplier', 'the first run has the default population', F(v, 'current_multiplier'), ONE, facts=ok, res=r)
    r = C.run(C.fn('IPOP', 'has_zero_max_runs', trait='Strategy'))
    C.ob('IPOP.zero', 'IPOP always makes runs', r.ret, FALSE, res=r)

@prop('C28', 'value graph of a BIPOP restart, case by regime: condition, options of the run, bookkeeping and the stop signal', nofeat=True)
def c28(C):
    s = parts(C, 'BIPOP'); F = C.F; a = s.a; b = a[0]; o = a[1]
    # holds initially (no run, no evaluation: see BIPOP.new below) and is kept by the required updates
    C.invariants = [b_or(ge(F(b, 'ipop_runs'), ONE), ge(F(b, 'lr_function_evals'), F(b, 'ipop_function_evals')))]
    runs_once(C, 'BIPOP', s)
    small = b_and(ge(F(b, 'ipop_runs'), ONE), lt(F(b, 'lr_function_evals'), F(b, 'ipop_function_evals')))
    # two distinct uniform draws, found in the fields they configure
    pop = F(s.o, 'population_size'); step = F(s.o, 'initial_step_size')
    isdraw = lambda t: t.op == 'app' and t.args[0].startswith('draw:')
    ds, dp = find(step, isdraw), find(pop, isdraw)
    one = ONE
    if len(ds) == 1 and len(dp) == 1:
        u1, u2 = ds[0], dp[0]
        C.fact('BIPOP.draws', 'step size and population use two separate uniform draws from the given generator', u1 is not u2 and all(u.args[0] == 'draw:gen<f64>' and u.args[1] is a[5] for u in (u1, u2)), s.r.body['p'], got='%s, %s' % (show(u1), show(u2)), want='two draws of gen::<f64>() from the rng argument')
    else:
        u1 = u2 = None
        C.fact('BIPOP.draws', 'step size and population each use one uniform draw', False, s.r.body['p'], got='%d and %d draws' % (len(ds), len(dp)), want='one each')
        u1 = ds[0] if ds else ZERO; u2 = dp[0] if dp else ZERO
    half = app('idiv', F(b, 'last_ipop_function_evals_used'), num(2), kind='nat')
    mx = F(o, 'max_function_evals')
    g = models.gpow(scale(F(b, 'last_ipop_multiplier'), Q(1, 2)), power(u2, 2))
    p_small = floor_usize(mul(F(o, 'population_size'), ite(gt(g, ONE), g, ONE)))
    step_small = mul(a[2], F(b, 'lr_initial_step_size_factor'), models.gpow(num(10), scale(u1, -2)))
    m = F(b, 'ipop_current_multiplier')
    options(C, 'BIPOP', s, dict(initial_step_size=ite(small, step_small, scale(a[2], Q(1, 5))),
                                population_size=ite(small, p_small, mul(F(o, 'population_size'), m)),
                                max_function_evals=ite(small, Some(ite(b_and(is_variant(mx, OPT, 1), lt(C.some(mx), half)), C.some(mx), half)), mx)))
    n = add(F(b, 'ipop_runs'), ONE)
    control(C, 'BIPOP', s, b_and(b_not(small), ge(n, num(10))))
    e = s.evals
    I = lambda x, y: ite(small, x, y)
    becomes(C, 'BIPOP', s, dict(ipop_runs=I(F(b, 'ipop_runs'), n), ipop_function_evals=I(F(b, 'ipop_function_evals'), add(F(b, 'ipop_function_evals'), e)),
                                ipop_current_multiplier=I(m, mul(m, F(b, 'ipop_increase_factor'))), last_ipop_function_evals_used=I(F(b, 'last_ipop_function_evals_used'), e),
                                last_ipop_multiplier=I(F(b, 'last_ipop_multiplier'), m), lr_function_evals=I(add(F(b, 'lr_function_evals'), e), F(b, 'lr_function_evals'))))
    C.invariants = []
    r = C.run(C.fn('BIPOP', 'new'))
    v = C.payload(r.ret, 0); ok = [is_variant(r.ret, RES, 0)]
    for f in ('ipop_runs', 'ipop_function_evals', 'lr_function_evals', 'last_ipop_function_evals_used'):
        C.ob('BIPOP.new.' + f, 'nothing has been run', F(v, f), ZERO, facts=ok, res=r)
    for f in ('ipop_current_multiplier', 'last_ipop_multiplier'):
        C.ob('BIPOP.new.' + f, 'the first large run has the default population', F(v, f), ONE, facts=ok, res=r)
    r = C.run(C.fn('BIPOP', 'has_zero_max_runs', trait='Strategy'))
    C.ob('BIPOP.zero', 'BIPOP always makes runs', r.ret, FALSE, res=r)

# ---------------------------------------------------------------- options
@prop('C29', 'value graphs of the option constructors, setters and of the restarter construction', nofeat=True)
def c29(C):
    o_default_options(C); o_ropts(C); o_range(C); o_construct(C); o_strategies(C)

def ropts(C):
    ob = C.bar('CMAESOptions', 'new', 'options_new')
    return ob, C.run(C.fn('RestartOptions', 'new'), barriers=[ob.handler()])
def o_default_options(C):
    F = C.F
    ob, r = ropts(C); dim, rg, st = r.a
    e = r.ev('call', 'options_new')
    C.fact('default.default_options.once', 'default options are built once', len(e) == 1 and e[0].guard is TRUE, r.body['p'], got='%d constructions' % len(e), want='1')
    if e:
        m, step = e[0].args[:2]; i = sym('i', 'nat')
        C.ob('default.default_options', 'the default options of the optimizer', F(r.ret, 'default_options'), ob(m, step), res=r)
        C.ob('default.default_options.dimensions', 'of the given dimension', seqlen(m), dim, res=r)
        C.ob('default.default_options.mean', 'with a mean of zero', C.sel(m, i), ZERO, facts=[lt(i, dim)], res=r)
        C.ob('default.default_options.step', 'and a step size of one half', step, num(Q(1, 2)), res=r)
def o_ropts(C, names=None):
    F = C.F; N = NoneV(); r = ropts(C)[1]; dim, rg, st = r.a
    d = dict(strategy=st, dimensions=dim, mode=C.enum('Mode', 'Minimize'), parallel_update=FALSE, fun_target=N, max_function_evals=N, max_time=N,
             max_function_evals_per_run=N, max_generations_per_run=N, enable_printing=FALSE, seed=N)
    for f in C.fields('RestartOptions'):
        if names is not None and f not in names: continue
        if f in d: C.ob('default.' + f, 'the given value or the documented default', F(r.ret, f), d[f], res=r)
        elif f not in ('search_range', 'default_options'): C.undecided('default.' + f, 'every option has a documented default', 'an option this specification does not know')
    import s_params as SP
    for nm, how in dict(mode=0, parallel_update=0, default_options=0, fun_target=1, max_function_evals=1, max_time=1, max_function_evals_per_run=1, max_generations_per_run=1, enable_printing=0, seed=1).items():
        if names is not None and nm not in names: continue
        try:
            r = C.run(C.fn('RestartOptions', nm))
            SP.only(C, 'set.' + nm, r, nm, Some(r.a[1]) if how else r.a[1], ty='RestartOptions')
        except Undecided as e: C.undecided('set.' + nm, 'each setter changes its own option only', e)
def o_range(C):
    F = C.F; r = ropts(C)[1]; dim, rg, st = r.a
    lo, hi = F(rg, 'start'), F(rg, 'end'); got = F(r.ret, 'search_range')
    fx = [b_not(F(rg, 'exhausted'))]
    flip = lt(hi, lo)
    C.ob('range.start', 'the smaller bound comes first', F(got, 'start'), ite(flip, hi, lo), facts=fx, res=r, nan=False)
    C.ob('range.end', 'the larger bound comes last', F(got, 'end'), ite(flip, lo, hi), facts=fx, res=r, nan=False)

def o_construct(C, names=None):
    F = C.F
    nw = C.bar('Restarter', 'new', 'restarter_new', ('RestartOptions',))
    r = C.run(C.fn('RestartOptions', 'build'), barriers=[nw.handler()])
    full = names is None
    if full: C.ob('build', 'building is exactly the construction', r.ret, nw(r.a[0]), res=r)
    r = C.run(nw.bid); o = r.a[0]
    dim0 = eq(F(o, 'dimensions'), ZERO); empty = eq(sub(F(o, 'search_range.end'), F(o, 'search_range.start')), ZERO)
    if full:
        C.ob('rejects', 'construction fails exactly for zero dimensions or an empty search range', is_variant(r.ret, RES, 1), b_or(dim0, empty), res=r)
        C.ob('error', 'with the error of the first fault', C.payload(r.ret, 1), ite(dim0, C.enum('InvalidRestartOptionsError', 'Dimensions'), C.enum('InvalidRestartOptionsError', 'SearchRange')), facts=[b_or(dim0, empty)], res=r)
    v = C.payload(r.ret, 0); ok = [b_not(dim0), b_not(empty)]
    src = {f: f for f in C.fields('RestartOptions')}; src['print_info'] = src.pop('enable_printing'); src.pop('seed')
    for f in C.fields('Restarter'):
        if f in src and (full or src[f] in names): C.ob('reach.' + f, 'the given option, unchanged', F(v, f), F(o, src[f]), facts=ok, res=r)
    if full: C.ob('reach.overall_best', 'no individual is known yet', is_variant(F(v, 'overall_best'), OPT, 0), TRUE, facts=ok, res=r)

def o_strategies(C, names=None):
    """validation and defaults of the strategies"""
    F = C.F; E = 'InvalidRestartStrategyOptionsError'
    bad = lambda x: b_not(b_and(normal(x), lt(ZERO, x)))
    normal = lambda x: boolterm(app('is_normal', x, kind='bool'))
    optional = lambda o: o.kind not in NUM and C.db.ty(C.db.strip(o.ty)).get('path') == OPT
    for name, spec in (('Local', [('InitialStepSize', 'initial_step_size_factor', 1, num(Q(1, 2)), bad)]),
                       ('IPOP', [('PopulationSize', 'increase_factor', 0, num(2), lambda x: eq(x, ZERO))]),
                       ('BIPOP', [('InitialStepSize', 'lr_initial_step_size_factor', 0, num(Q(1, 5)), bad), ('PopulationSize', 'ipop_increase_factor', 1, num(2), lambda x: eq(x, ZERO))])):
        if names and name not in names: continue
        r = C.run(C.fn(name, 'new'))
        facts = []; chk = []
        for err, f, i, dflt, b in spec:
            o = r.a[i]
            if not optional(o): chk.append((err, b(o))); continue
            if b is bad: facts += SP.normal_facts(C.some(o))
            chk.append((err, b_and(is_variant(o, OPT, 1), b(C.some(o)))))
        reject = b_or(*[c for e, c in chk])
        if not names: C.ob(name + '.rejects', 'fails exactly for an invalid factor', is_variant(r.ret, RES, 1), reject, facts=facts, res=r)
        want = BOT
        for e, c in reversed(chk): want = ite(c, C.enum(E, e), want)
        if not names: C.ob(name + '.error', 'with its own error', C.payload(r.ret, 1), want, facts=facts + [reject], res=r)
        v = C.payload(r.ret, 0)
        for err, f, i, dflt, b in spec:
            o = r.a[i]
            C.ob('%s.%s' % (name, f), 'the given factor or the documented default', F(v, f), ite(is_variant(o, OPT, 1), C.some(o), dflt) if optional(o) else o, facts=facts + [b_not(reject)], res=r)
    for name, f, d in (('IPOP', 'increase_factor', num(2)), ('BIPOP', 'ipop_increase_factor', num(2)), ('BIPOP', 'lr_initial_step_size_factor', num(Q(1, 5)))):
        if names and name not in names: continue
        r = C.run(C.fn(name, 'default', trait='Default'))
        C.ob('%s.default.%s' % (name, f), 'the documented default', F(r.ret, f), d, facts=[boolterm(app('is_normal', num(Q(1, 5)), kind='bool'))], res=r)

for pid_, name_ in (('C26', 'Local'), ('C27', 'IPOP'), ('C28', 'BIPOP')):
    def part_(C, name=name_): o_strategies(C, (name,))
    part_.__name__ = 'o_factors'
    also(pid_)(part_)

def rflow(pid, *names):
    """the restart options a property speaks of, from the setter to the restarter"""
    def part(C): o_ropts(C, names); o_construct(C, names)
    part.__name__ = 'restart_options'
    also(pid)(part)
rflow('C24', 'mode', 'fun_target', 'max_function_evals', 'max_time', 'strategy', 'dimensions')
rflow('C25', 'mode', 'fun_target', 'parallel_update', 'max_function_evals_per_run', 'max_generations_per_run', 'default_options', 'search_range', 'dimensions')
rflow('C23', 'enable_printing'); rflow('C04', 'seed')
also('C25')(o_default_options); also('C25')(o_range)

# ---------------------------------------------------------------- the restarter
def restart(C):
    """Restarter::run_internal with the strategy's run summarised: it builds one optimizer, hands it to the callback once and returns it"""
    key = 'restart'
    r = C.cache.get(key)
    if r is None:
        db = C.db
        def handler(I, f, args, st, pc, dty, atys):
            vals = [I.deep(st, a) for i, a in enumerate(args) if i != 4]
            t = db.ty(dty)
            cm = built_by(vals, db.strip(t['args'][0]))
            root = I.newroot(); st.set(root, cm)
            data = I.apply(args[4], [I.mkref([(TRUE, root, ())])], st, pc)
            fin = I.deep(st, st.get(root))
            I.event('next_run', 'next_run', vals + [fin, data], pc)
            for i, v in ((0, vals[0]), (5, vals[4])):
                I.wrloc(st, I.unref(st, args[i]), app('post%d:next_run' % i, *vals, fin, kind=v.kind, ty=v.ty))
            return adt('tuple', 0, fin, C.F(data, 'reasons'), app('control', *vals, fin, kind='other', ty=db.strip(t['args'][2])), ty=dty)
        nr = C.bar('RestartStrategy', 'next_run', 'next_run', trait='Strategy')
        zero = C.bar('RestartStrategy', 'has_zero_max_runs', 'zero', trait='Strategy')
        bs = [C.barrier(nr.bid, 'next_run', handler=handler), zero.handler(), C.bar('Restarter', 'print_initial_info', 'print_initial_info', ('&Restarter',)).handler(),
              C.bar(None, 'print_run_info', 'print_run_info').handler(), C.bar(None, 'print_run_results', 'print_run_results').handler(), C.bar('RestartResults', 'print_results', 'print_results').handler()]
        r = C.cache[key] = C.run(C.fn('Restarter', 'run_internal'), barriers=bs, limit=100)
        r.zero = zero
    C.analysed.setdefault(r.body['p'], r.stats)
    return r
def built_by(vals, ty=None): return app('built', *vals, kind='other', ty=ty)

def run_options(C, a0, R, k):
    """the options every run starts from"""
    F = C.F; n = F(a0, 'dimensions'); rg = F(a0, 'search_range')
    i = fresh('i', 'nat')
    mean = vec_of(n, T.seq(i, n, app('draw:range', R, rg, k, i, ZERO, kind='real')))
    return dict(initial_mean=mean, mode=F(a0, 'mode'), parallel_update=F(a0, 'parallel_update'), seed=Some(app('draw:gen<u64>', R, k, ZERO, kind='nat')), fun_target=F(a0, 'fun_target'),
                max_function_evals=F(a0, 'max_function_evals_per_run'), max_generations=F(a0, 'max_generations_per_run'))
def range_size(C, a0): return f_abs(sub(C.F(a0, 'search_range.end'), C.F(a0, 'search_range.start')))

def rspec(C):
    """the documented restart loop as a recurrence over (strategy, generator, best, evaluations, stored function)"""
    s = C.cache.get('rspec')
    if s is not None: return s
    r = restart(C); F = C.F; a0, get, reuse, run = r.a[:4]
    ev = [e for e in r.events if e.kind == 'next_run']
    if len(ev) != 1: raise Undecided('%d calls of the strategy' % len(ev))
    s = S(); s.r = r; s.ev = ev[0]
    # a run does not change whether the strategy allows none (o_zero_kept): the question may be asked once
    z0 = r.zero(F(a0, 'strategy')); zs = set(find(r.ret, lambda t: t.op == 'app' and t.args[0] == 'zero'))
    hoisted = s.hoisted = zs == set(find(z0, lambda t: t.op == 'app' and t.args[0] == 'zero'))
    def body(k, v):
        st, rng, best, evals, obj = v
        zero = z0 if hoisted else r.zero(st); mx = F(a0, 'max_function_evals'); mt = F(a0, 'max_time')
        now = app('now', ZERO, kind='nat')
        fe = b_and(is_variant(mx, OPT, 1), ge(evals, C.some(mx)))
        tm = b_and(is_variant(mt, OPT, 1), ge(app('elapsed', now, k, kind='nat'), C.some(mt)))
        o = C.struct('CMAESOptions', base=F(a0, 'default_options'), **run_options(C, a0, rng, k))
        fn = ite(is_variant(obj, OPT, 1), C.payload(obj, 1, kind='other'), app('apply', get))
        vals = [st, o, range_size(C, a0), fn, rng]
        cm = built_by(vals)
        fin = app('post0:apply', run, cm, ty=s.ev.args[5].ty); data = app('apply', run, cm, ty=s.ev.args[6].ty)
        nx = lambda i, x: app('post%d:next_run' % i, *vals, fin, kind=x.kind, ty=x.ty)
        reasons = F(data, 'reasons'); n = seqlen(reasons)
        has = lambda nm: C.any(n, lambda j: C.isv(C.sel(reasons, j), 'TerminationReason', nm))
        inv_, tgt = has('InvalidFunctionValue'), has('FunTarget')
        last = C.isv(app('control', *vals, fin, ty=C.tyid.get(C.T('RestartControl'))), 'RestartControl', 'MaxRunsReached')
        b1 = F(fin, 'history.overall_best_individual'); mode = F(a0, 'mode')
        v1, v0 = F(C.some(b1), 'value'), F(C.some(best), 'value')
        better = ite(C.isv(mode, 'Mode', 'Maximize'), gt(v1, v0), lt(v1, v0))
        nb = ite(b_and(is_variant(b1, OPT, 1), b_or(b_not(is_variant(best, OPT, 1)), better)), Some(C.some(b1)), best)
        ne = add(evals, F(fin, 'sampler.function_evals'))
        no = ite(reuse, Some(F(fin, 'sampler.objective_function')), NoneV())
        before = b_or(zero, fe, tm)
        after = b_or(inv_, tgt, last)
        R = lambda nm: C.enum('RestartTerminationReason', nm)
        reason = ite(zero, R('MaxRuns'), ite(fe, R('MaxFunctionEvals'), ite(tm, R('MaxTime'), ite(inv_, R('InvalidFunctionValue'), ite(tgt, R('FunTarget'), R('MaxRuns'))))))
        out = dict(best=ite(b_or(before, inv_), best, nb), reason=reason, function_evals=ite(before, evals, ne), runs=ite(before, k, add(k, ONE)))
        return b_or(before, after), [nx(0, st), nx(4 + 1, rng), nb, ne, no], out
    inits = [F(a0, 'strategy'), F(a0, 'rng'), F(a0, 'overall_best'), ZERO, NoneV()]
    L = C.loop(inits, lambda k, v: body(k, v)[:2], counter=True, types={4: objty(C, r)})
    s.out = body(L[-1], L[:-1])[2]
    C.cache['rspec'] = s
    return s
def objty(C, r):
    """the type Option<F> of the stored objective"""
    for t in find(r.ret, lambda t: t.op == 'bind' and t.args[0] == 'loop'):
        for i in bind_parts(t)[3]:
            if i.op == 'adt' and i.args[:2] == (OPT, 0) and i.ty is not None: return i.ty
    return None

def zero_kept(C):
    """whether a strategy allows no runs at all does not change from run to run"""
    for nm in ('Local', 'IPOP', 'BIPOP'):
        s = parts(C, nm); fn = C.fn(nm, 'has_zero_max_runs', trait='Strategy')
        r0 = C.run(fn); r1 = C.run(fn, args={0: s.self})
        C.ob(nm + '.zero_kept', 'whether no run is allowed does not depend on the runs made', r1.ret, subst(r0.ret, {r0.a[0]: s.a[0]}), facts=[s.ok], res=s.r)

@prop('C24', 'the restart loop as a recurrence: results, counts and reasons on leaving equal those of the documented loop', nofeat=True,
      assume=['the strategy makes one run per call (C26 to C28)', 'integers do not wrap'])
def c24(C):
    zero_kept(C); o_results(C, ('runs', 'function_evals', 'best', 'reason'))
def o_results(C, names):
    s = rspec(C)
    for f in names:
        got = aligned(C.F(s.r.ret, f), s.out[f])
        C.ob('results.' + f, 'the result of the documented loop', got, s.out[f], res=s.r)

@also('C02')
def o_best_run(C): o_results(C, ('best', 'reason'))

def aligned(got, want):
    """recurrences of the source that equal recurrences of the specification step by step are written like these"""
    isloop = lambda t: t.op == 'bind' and t.args[0] == 'loop'
    ws = set(find(want, isloop)); m = {}
    for g in find(got, isloop):
        if g in ws: continue
        for w in ws:
            if bind_parts(w)[2:4] == bind_parts(g)[2:4] and len(w.args) == len(g.args) and g.kind == w.kind:
                try: same = compare(g, w) is None
                except (Budget, RecursionError): same = False
                if same: m[g] = w; break
    return subst(got, m) if m else got

@prop('C25', 'the options, function and generator handed to the strategy in one iteration of the restart loop, clause by clause; entry points by what they hand to the loop', nofeat=True,
      assume=['a generator yields independent values (rand)'])
def c25(C):
    s = rspec(C); F = C.F; r = s.r; a0, get, reuse, run = r.a[:4]
    st, o, rg, fn, rng = s.ev.args[:5]
    if not s.ev.loops: raise Undecided('the strategy is not called in a loop')
    k = s.ev.loops[0].k
    want = run_options(C, a0, rng, k)
    for f in C.fields('CMAESOptions'):
        got = F(o, f)
        if f == 'initial_mean':
            i = sym('i', 'nat'); n = F(a0, 'dimensions')
            C.ob('option.initial_mean.len', 'one coordinate per dimension', seqlen(got), n, facts=[ge(n, ONE)], res=r)
            C.ob('option.initial_mean', 'every coordinate drawn uniformly from the search range, each with a draw of its own', C.sel(got, i), C.sel(want[f], i), facts=[lt(i, n)], res=r)
        elif f in want: C.ob('option.' + f, 'configured from the restart options, the seed by a draw of its own', got, want[f], res=r)
        else: C.ob('option.' + f, 'the default option, unchanged', got, F(a0, 'default_options.' + f), res=r)
    C.ob('range', 'the size of the search range', rg, range_size(C, a0), res=r)
    dr = [e for e in r.events if e.kind == 'draw']
    pos = {n: [i for i, e in enumerate(dr) if e.name == n] for n in ('range', 'gen<u64>')}
    C.fact('draws', 'the mean is drawn before the seed and nothing else is drawn', len(dr) == len(pos['range']) + len(pos['gen<u64>']) and max(pos['range'], default=0) < min(pos['gen<u64>'], default=1), r.body['p'], got=[e.name for e in dr], want='range per coordinate, then one u64')
    # the objective function: the stored one if any, else a new one
    objs = [t for t in find(fn, lambda t: t.op == 'sym' and t is not get and t is not reuse)]
    if len(objs) != 1: C.undecided('function', 'the stored function or a new one', 'the stored function was not found')
    else:
        obj = objs[0]
        C.ob('function', 'the stored function if there is one, else a newly obtained one', fn, ite(is_variant(obj, OPT, 1), C.payload(obj, 1, kind='other'), app('apply', get)), res=r)
    got = aligned(C.F(r.ret, 'function_evals'), s.out['function_evals'])
    C.ob('sequence', 'all runs get their strategy state, generator and stored function from the run before', got, s.out['function_evals'], res=r)
    run_once(C, s)
def run_once(C, s):
    r = s.r; g = s.ev.guard
    for e in r.events:
        if e.kind == 'apply' and e.args and e.args[0] is r.a[3]:
            C.ob('callback', 'each run is executed with the requested kind of run exactly once', e.guard, g, res=r)

def o_delegate(C):
    F = C.F; bs = {n: C.bar(n, 'next_run', 'next_run_' + n, trait='Strategy') for n in SN}
    zs = {n: C.bar(n, 'has_zero_max_runs', 'zero_' + n, trait='Strategy') for n in SN}
    p = C.T('RestartStrategy')
    r = C.run(C.fn('RestartStrategy', 'next_run', trait='Strategy'), barriers=[b.handler() for b in bs.values()])
    a0 = r.a[0]
    for n in SN:
        i = C.vi(p, n); is_ = is_variant(a0, p, i); v = [C.payload(a0, i)] + list(r.a[1:])
        for j in ('0', '1', '2'): C.ob('delegate.%s.%s' % (n, j), 'the chosen strategy makes the run', F(r.ret, j), F(bs[n](*v), j), facts=[is_], res=r)
        C.ob('delegate.%s.state' % n, 'and keeps its state', C.payload(r.post(0), i), bs[n].post(0, *v), facts=[is_], res=r)
        C.ob('delegate.%s.rng' % n, 'drawing from the given generator', r.post(5), bs[n].post(5, *v), facts=[is_], res=r)
    r = C.run(C.fn('RestartStrategy', 'has_zero_max_runs', trait='Strategy'), barriers=[b.handler() for b in zs.values()])
    a0 = r.a[0]
    for n in SN:
        i = C.vi(p, n); C.ob('delegate.%s.zero' % n, 'the chosen strategy decides whether runs are made at all', r.ret, zs[n](C.payload(a0, i)), facts=[is_variant(a0, p, i)], res=r)
also('C25', 'C24')(o_delegate)

ENTRY = {'run': (FALSE, False), 'run_with_reuse': (TRUE, False), 'run_parallel': (FALSE, True), 'run_parallel_with_reuse': (TRUE, True)}
def o_entries(C):
    for nm, (reuse, par) in ENTRY.items():
        try: entry(C, nm, reuse, par)
        except Undecided as e: C.undecided('entry.' + nm, 'the entry point starts the restart loop', e)
def entry(C, nm, reuse, par):
    F = C.F; got = []
    runs = {p: C.bar('CMAES', n, n, ('&mut CMAES<F>',)) for p, n in ((False, 'run'), (True, 'run_parallel'))}
    ri = C.fn('Restarter', 'run_internal')
    def handler(I, f, args, st, pc, dty, atys):
        g = [I.apply(args[1], [], st, pc)]
        db = C.db; cty = C.cache.get('cmaesty')
        root = I.newroot(); cm = sym('cm', 'other', C.db.strip(runs[par].body['locals'][1][0])); st.set(root, cm)
        d = I.deep(st, I.apply(args[3], [I.mkref([(TRUE, root, ())])], st, pc))
        got.append((pc, I.deep(st, args[0]), g, args[2], cm, d, I.deep(st, st.get(root))))
        return app('results', I.deep(st, args[0]), kind='other', ty=C.db.strip(dty))
    bs = [b.handler() for b in runs.values()] + [C.barrier(ri, 'run_internal', handler=handler)]
    r = C.run(C.fn('Restarter', nm), barriers=bs)
    C.fact('entry.%s.once' % nm, 'one restart loop is run', len(got) == 1 and got[0][0] is TRUE, r.body['p'], got=len(got), want=1)
    if len(got) != 1: return
    pc, sf, g, flag, cm, d, post = got[0]
    C.ob('entry.%s.self' % nm, 'with the restarter as configured', sf, r.a[0], res=r)
    C.ob('entry.%s.reuse' % nm, 'reusing the function exactly in the reusing entry points', boolterm(flag), reuse, res=r)
    C.ob('entry.%s.function' % nm, 'with the given function, or one obtained from the given callable', g[0], r.a[1] if reuse is TRUE else app('apply', r.a[1]), res=r)
    C.ob('entry.%s.run' % nm, 'each run is a complete (parallel, in the parallel entry points) run of the optimizer', d, runs[par](cm), res=r)
    C.ob('entry.%s.after' % nm, 'and nothing else is done to the optimizer', post, runs[par].post(0, cm), res=r)
    C.ob('entry.%s.result' % nm, 'and its results are returned', r.ret, app('results', r.a[0]), res=r)
also('C25', 'C24')(o_entries)
