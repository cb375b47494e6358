"""C30, C31: objective function wrappers and the one-call helpers (src/objective_function.rs, src/functions.rs)"""
from core import *
from registry import prop, also
import s_params as SP

TR = {'ObjectiveFunction': 'evaluate', 'ParallelObjectiveFunction': 'evaluate_parallel'}
def impls(C):
    for bid in C.db.roots:
        b = C.db.bodies[bid]; it = (b.get('itrait') or '').split('::')[-1]
        if it in TR and b['n'] == TR[it]: yield it, bid, b

@prop('C30', 'value graph of every implementation of the objective function traits: one evaluation, at the intended point, returned unchanged', nofeat=True)
def c30(C):
    F = C.F; n = 0
    for it, bid, b in impls(C):
        ty = C.db.ty(C.db.strip(b['selfty'])); nm = '%s for %s' % (it, shortty(C.db.ty(b['selfty'])['s'])[:60])
        kind = C.short(b)
        try: r = C.run(bid)
        except Undecided as e: C.undecided(nm, 'one evaluation at the intended point', e); continue
        n += 1
        f, x = r.a[:2]; i = sym('i', 'nat')
        ev = [e for e in r.events if e.kind in ('apply', 'evaluate')]
        C.ob(nm + '.once', 'the wrapped function is evaluated exactly once', count(ev), ONE, res=r)
        if kind == 'Scale':
            inner = F(f, 'function'); pt = C.run(C.fn('Scale', 'scale'), args={0: f, 1: x}).ret if False else None
        elif kind in ('param', 'dyn'): inner = f
        else: C.undecided(nm, 'one evaluation at the intended point', 'a wrapper this specification does not know'); continue
        if len(ev) == 1:
            g, y = ev[0].args[:2]
            C.ob(nm + '.function', 'it is the wrapped function that is evaluated', g, inner, res=r)
            if kind == 'Scale': C.ob(nm + '.point', 'at the point scaled component by component', C.sel(y, i), mul(C.sel(x, i), C.sel(F(f, 'scales'), i)), res=r)
            else: C.ob(nm + '.point', 'at the given point', y, x, res=r)
        vals = find(r.ret, lambda t: t.op == 'app' and t.args[0] in ('apply', 'objective'))
        C.fact(nm + '.value', 'and its value is returned unchanged', len(ev) == 1 and len(vals) == 1 and vals[0] is r.ret, b['p'], got=show(r.ret)[:200], want='the value of the evaluation', undecided='depends on an unmodelled operation' if r.I.unmodelled and not vals else None)
        other = [e for e in r.events if e.kind in ('draw', 'entropy', 'clock', 'print')]
        C.fact(nm + '.effects', 'nothing else happens', not other, b['p'], got=[e.name for e in other], want='none')
    C.fact('impls', 'implementations of the objective traits', n >= 8, 'src/objective_function.rs', got=n, want='at least the eight documented ones', undecided='implementations not found' if n < 8 else None)
    # the adapter itself
    r = C.run(C.fn('Scale', 'new')); given = SP.given
    C.ob('Scale.new.function', 'the adapter holds the given function', F(r.ret, 'function'), r.a[0], res=r)
    C.fact('Scale.new.scales', 'and the given scales', given(F(r.ret, 'scales'), r.a[1]), r.body['p'], got=show(F(r.ret, 'scales'))[:200], want='scales.into()')
    r = C.run(C.fn('Scale', 'into_wrapped_function'))
    C.ob('Scale.into_wrapped_function', 'the wrapped function is given back', r.ret, F(r.a[0], 'function'), res=r)
    r = C.run(C.fn('Scale', 'scales')); C.ob('Scale.scales', 'the scales are reported as given', r.ret, F(r.a[0], 'scales'), res=r)
    r = C.run(C.fn('Scale', 'scale')); i = sym('i', 'nat')
    C.ob('Scale.scale', 'scaling is component by component', C.sel(r.ret, i), mul(C.sel(r.a[1], i), C.sel(F(r.a[0], 'scales'), i)), res=r)
    r = C.run(C.fn('Sampler', 'into_objective_function')); C.ob('Sampler.into_objective_function', 'the sampler gives back its function', r.ret, F(r.a[0], 'objective_function'), res=r)
    r = C.run(C.fn('CMAES', 'into_objective_function')); C.ob('CMAES.into_objective_function', 'the optimizer gives back its function', r.ret, F(r.a[0], 'sampler.objective_function'), res=r)

HELP = {'fmin': ('Minimize', 'run'), 'fmax': ('Maximize', 'run'), 'fmin_parallel': ('Minimize', 'run_parallel'), 'fmax_parallel': ('Maximize', 'run_parallel')}
def helper(C, nm):
    key = 'helper:' + nm
    r = C.cache.get(key)
    if r is None:
        bs = [C.bar('CMAES', 'new', 'cmaes_new', ('F', 'CMAESOptions'))] + [C.bar('CMAES', n, n, ('&mut CMAES<F>',)) for n in ('run', 'run_parallel')]
        r = C.cache[key] = C.run(C.fn(None, nm), barriers=[b.handler() for b in bs]); r.b = bs
    C.analysed.setdefault(r.body['p'], r.stats)
    return r
@prop('C31', 'value graph of each helper: the options, the construction, the run and the result', nofeat=True)
def c31(C):
    for nm in HELP:
        try: one(C, nm)
        except Undecided as e: C.undecided(nm, 'one run with default options in the named direction', e)
def one(C, nm):
    F = C.F; r = helper(C, nm); mode, how = HELP[nm]; f, mean, step = r.a[:3]
    new, run = r.b[0], r.b[1 if how == 'run' else 2]
    ev = r.ev('call', 'cmaes_new')
    C.ob(nm + '.once', 'one optimizer is built', count(ev), ONE, res=r)
    if len(ev) != 1: C.undecided(nm + '.options', 'default options', 'the construction was not found'); return
    fn, o = ev[0].args[:2]
    C.ob(nm + '.function', 'of the given function', fn, f, res=r)
    given = SP.given
    C.fact(nm + '.initial_mean', 'from the given mean', given(F(o, 'initial_mean'), mean), r.body['p'], got=show(F(o, 'initial_mean'))[:200], want='initial_mean.into()')
    C.ob(nm + '.initial_step_size', 'and the given step size', F(o, 'initial_step_size'), step, res=r)
    d = SP.defaults(C, seqlen(F(o, 'initial_mean'))); d['mode'] = C.enum('Mode', mode); d.pop('print_gap_evals')
    C.ob(nm + '.print_gap_evals', 'with printing enabled', is_variant(F(o, 'print_gap_evals'), OPT, 1), TRUE, res=r)
    for k, v in d.items():
        C.ob('%s.%s' % (nm, k), {'mode': 'in the named direction'}.get(k, 'the default option'), F(o, k), v, res=r)
    built = new(fn, o); ok = is_variant(built, RES, 0); cm = C.payload(built, 0)
    runs = [e for e in r.events if e.kind == 'call' and e.name in ('run', 'run_parallel')]
    C.ob(nm + '.run', 'one complete run', count(runs), ONE, facts=[ok], res=r)
    data = run(cm); best = F(data, 'overall_best')
    C.ob(nm + '.result', 'the best individual of the whole run is returned', r.ret, C.some(best), facts=[ok, is_variant(best, OPT, 1)], res=r)
    evs = [e for e in r.events if e.kind == 'panic']
    C.ob(nm + '.total', 'and the helper panics only for invalid options or values', b_or(*[e.guard for e in evs]), b_not(b_and(ok, is_variant(best, OPT, 1))), res=r, free=('Into::into',))
