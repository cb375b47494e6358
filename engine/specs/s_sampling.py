"""C06, C07, C08, C03 (evaluations), C02 (ordering), C05 (sampling): src/sampling.rs"""
from core import *
from registry import prop, also

SIGS = {'sample': 'sample', 'sample_parallel': 'sample_parallel'}
def sample(C, name='sample'):
    r = C.cache.get('Sampler::' + name)
    if r is None:
        r = C.cache['Sampler::' + name] = C.run(C.fn('Sampler', name), limit=100)
    C.analysed.setdefault(r.body['p'], r.stats)
    return r

def ytermloop(C, r):
    """the recurrence that collects the steps of a generation"""
    L = [t for t in find(r.ret, lambda x: x.op == 'bind' and x.args[0] == 'loop') if t.kind == 'seq']
    if len(L) != 1: raise Undecided('the sampling recurrence was not found (%d candidates)' % len(L))
    return L[0]

def accepting(t):
    """the term when every point meets the constraints"""
    memo = {}
    def go(x):
        q = memo.get(x)
        if q is None:
            if x.op == 'app' and x.args[0] == 'meets_constraints': q = TRUE
            else: q = T.rebuild(x, go)
            memo[x] = q
        return q
    return go(t)

def opened(y):
    """(exit condition, collected sequence, its next value) of the sampling recurrence"""
    op, h, nv, ins, bodies = bind_parts(y)
    n = len(ins); hask = nv - n
    vs = [fresh('v', i.kind, i.ty) for i in ins]
    bs = T.open_bind(y, ([fresh('k', 'nat')] if hask else []) + vs)
    js = [j for j in range(n) if vs[j] is bs[1]]
    if len(js) != 1 or len(bs) != n + 2: raise Undecided('the sampling recurrence has an unknown form')
    return bs[0], bs[1], bs[2 + js[0]]

def yspec(C, r, constrained=True):
    s, state = r.a[0], r.a[1]
    F = C.F
    pop = F(s, 'population_size'); dim = F(s, 'dim'); con = F(s, 'constraints'); mx = F(s, 'max_resamples')
    mean = F(state, 'mean'); sigma = F(state, 'sigma'); BD = F(state, 'cov.transform'); rng = F(s, 'rng')
    def step(rnd, j):
        d = fresh('d', 'nat')
        z = T._mk('app', ('draw:sample', rng, app('Normal', ZERO, ONE), rnd, j, d, ZERO), 'real', None)
        z = app('draw:sample', rng, app('Normal', ZERO, ONE), rnd, j, d, ZERO, kind='real')
        return mmul(BD, vec_of(dim, T.seq(d, dim, z)))
    def body(k, vs):
        y = vs[0]
        remain = sub(pop, seqlen(y))
        j = fresh('j', 'nat')
        st = step(k, j)
        enforced = b_and(is_variant(con, OPT, 1), b_not(b_and(is_variant(mx, OPT, 1), ge(k, C.some(mx)))))
        ok = ite(enforced, boolterm(app('meets_constraints', C.some(con), add(mean, mul(sigma, st)), kind='bool')), TRUE)
        if not constrained: ok = TRUE
        return ge(seqlen(y), pop), [concat(y, T.fseq(j, remain, ok, st))]
    return C.loop([EMPTY], body)[0]

def parts(C, r):
    """the result with the collected steps abstracted to one sequence Y"""
    y = ytermloop(C, r)
    Y = sym('Y', 'seq')
    return y, Y, subst(r.ret, {y: Y}), subst(r.post(0), {y: Y})

def result_spec(C, r, Y):
    s, state, mode = r.a[:3]
    F = C.F
    mean = F(state, 'mean'); sigma = F(state, 'sigma'); f = F(s, 'objective_function')
    n = seqlen(Y)
    def pt(k):
        yk = select(Y, k, 'mat')
        x = add(mean, mul(sigma, yk))
        return yk, x, app('objective', f, x, kind='real')
    bad = C.any(n, lambda k: isnan(pt(k)[2]))
    def ep(k):
        yk, x, v = pt(k)
        return C.struct('EvaluatedPoint', point=x, unscaled_step=yk, value=v)
    S = C.seq(n, ep)
    return bad, S, pt

def cmpfn(C, mode, fa):
    ty = C.tyid[C.T('EvaluatedPoint')]
    a = fresh('a', 'other', ty); b = fresh('b', 'other', ty)
    x, y = fa(a), fa(b)
    O = lambda n: C.enum('Ordering', n)
    mn = ite(lt(x, y), O('Less'), ite(lt(y, x), O('Greater'), O('Equal')))
    mxx = ite(lt(y, x), O('Less'), ite(lt(x, y), O('Greater'), O('Equal')))
    return closeb('fn2', (), (a, b), (ite(C.isv(mode, 'Mode', 'Minimize'), mn, mxx),))

BOTH = ('sample', 'sample_parallel')
def each(C):
    for n in BOTH: yield n, sample(C, n)

def place_rng(C, r, key):
    d = r.ev('draw')
    ok = bool(d) and all(e.extra and all(p is not None and p[0] == ('A', 0) and p[1] == ('rng',) for p in e.extra) for e in d)
    C.fact(key, 'every random draw advances the sampler\'s own generator in place', ok, r.body['p'],
           got=[str(e.extra) for e in d], want='rng field of the sampler', undecided=None if d else 'no draw found')

A = ['nalgebra, rand and rayon behave as documented (ordered parallel collect)', 'real arithmetic', 'a constraint or objective function is a function of its argument']
@prop('C06', 'every step of a generation is transform * (dim independent standard normal draws in order), its point is mean + sigma*step, and exactly population_size are evaluated', assume=A)
def c06(C):
    for n, r in each(C):
        y = ytermloop(C, r)
        C.ob(n + '.steps', 'steps are collected, in order, until population_size are kept; each is cov_transform * z with dim standard normal draws', accepting(y), yspec(C, r, False), res=r)
        place_rng(C, r, n + '.generator')
        bad = redrawn(y)
        C.fact(n + '.kept', 'a component of z is the number drawn for it, whatever its value', not bad, r.body['p'], got=[show(t, maxd=8)[:300] for t in bad], want='no draw is repeated depending on its value')
        points(C, n, r)

def redrawn(y):
    """numbers drawn again as long as their value is not accepted"""
    out = []
    isdraw = lambda t: t.op == 'app' and t.args[0].startswith('draw')
    for t in find(y, lambda t: t.op == 'bind' and t.args[0] == 'loop' and t.kind in NUM):
        op, h, nv, ins, bodies = bind_parts(t)
        k = [fresh('k', 'nat')] if nv > len(ins) else []
        vs = [fresh('v', i.kind, i.ty) for i in ins]
        bs = T.open_bind(t, k + vs)
        kept = set(find(bs[0], lambda q: q in set(vs)))
        if any(v in kept and find(nx, isdraw) for v, nx in zip(vs, bs[2:])) or find(bs[0], isdraw): out.append(t)
    return out

def points(C, n, r):
    y, Y, ret, post = parts(C, r)
    bad, S, pt = result_spec(C, r, Y)
    good = b_not(is_variant(ret, RES, 1))
    ok = C.payload(ret, 0, 0, 'seq')
    # the multiset of individuals, order aside
    sd = find(ok, lambda t: t.op == 'app' and t.args[0].startswith('sorted'))
    inner = subst(ok, {t: t.args[1] for t in sd})
    C.ob(n + '.individuals', 'one individual per step: point = mean + sigma*step, value = objective(point), and the step itself is kept', inner, S, facts=[good], res=r)

@prop('C07', 'a step is kept iff constraints are off, exhausted (round >= max_resamples) or met at mean + sigma*step; only missing steps are redrawn', assume=A)
def c07(C):
    for n, r in each(C):
        y = ytermloop(C, r)
        C.ob(n + '.steps', 'a step is kept exactly when the constraints in force hold at its point', y, yspec(C, r), res=r)
@also('C07')
def c07_points(C):
    for n, r in each(C): points(C, n, r)
@also('C07')
def c07_bounds(C):
    r = C.run(C.fn('Bounds', 'meets_constraints', trait='Constraints'))
    b, x = r.a
    lo, up = C.F(b, 'lower'), C.F(b, 'upper')
    spec = C.all(models.nelem(x) if hasattr(models, 'nelem') else seqlen(x), lambda i: b_and(ge(C.sel(x, i), C.sel(lo, i)), le(C.sel(x, i), C.sel(up, i))))
    n = seqlen(x)      # all three have the problem's dimension
    C.ob('bounds', 'lower[i] <= x[i] <= upper[i] for every coordinate', subst(r.ret, {seqlen(lo): n, seqlen(up): n}), spec, res=r)
    r = C.run(C.fn('Bounds', 'clone_box', trait='Constraints'))
    C.ob('bounds.clone', 'a boxed copy holds the same bounds', r.ret, r.a[0], res=r)

@prop('C08', 'Err exactly when some evaluation of the generation is NaN, otherwise every value is reported as returned', assume=A)
def c08_sample(C):
    for n, r in each(C):
        y, Y, ret, post = parts(C, r)
        bad, S, pt = result_spec(C, r, Y)
        C.ob(n + '.invalid', 'the generation is rejected iff some objective value is NaN', is_variant(ret, RES, 1), bad, res=r, nan=True)
        points(C, n, r)
        for f in C.fields('Sampler'):
            if f in ('function_evals', 'rng', 'objective_function'): continue
            C.ob('%s.keeps.%s' % (n, f), 'sampling leaves the configuration alone', C.F(post, f), C.F(r.a[0], f), res=r, nan=True)
    r = C.run(C.fn('EvaluatedPoint', 'new'))

@prop('C03', 'the objective is called once per step of the generation and the counter grows by exactly that number, whatever the values', assume=A)
def c03_sample(C):
    for n, r in each(C):
        y, Y, ret, post = parts(C, r)
        C.ob(n + '.counted', 'function_evals grows by the number of steps evaluated', C.F(post, 'function_evals'), add(C.F(r.a[0], 'function_evals'), seqlen(Y)), res=r, nan=True)
        c = subst(count(r.ev('evaluate')), {y: Y})
        C.ob(n + '.calls', 'the objective is called exactly once per step', c, seqlen(Y), res=r, nan=True)
    r = C.run(C.fn('Sampler', 'new'))
    C.ob('init', 'no evaluations at the start', C.F(r.ret, 'function_evals'), ZERO, res=r)
    r = C.run(C.fn('Sampler', 'function_evals'))
    C.ob('access', 'the counter is what is reported', r.ret, C.F(r.a[0], 'function_evals'), res=r)
    for n, r in each(C):
        y = ytermloop(C, r)
        ex, v, nx = opened(y); pop = C.F(r.a[0], 'population_size')
        C.ob(n + '.steps', 'steps are collected until there are population_size', ex, ge(seqlen(v), pop), res=r)
        C.ob(n + '.fill', 'a round draws exactly the missing ones', seqlen(accepting(nx)), pop, facts=[b_not(ex)], res=r)

def ordering(C, n, r):
    y, Y, ret, post = parts(C, r)
    bad, S, pt = result_spec(C, r, Y)
    ok = C.payload(ret, 0, 0, 'seq')
    spec = app('sorted', S, cmpfn(C, r.a[2], lambda p: C.F(p, 'value')), kind='seq', ty=ok.ty)
    C.ob(n + '.order', 'individuals are in best-first order under the mode, ties in sampling order', ok, spec, facts=[b_not(is_variant(ret, RES, 1))], res=r)
