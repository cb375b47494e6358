"""C04 (a seed determines the run) and C05 (parallel and sequential execution compute the same run)"""
from core import *
from registry import prop, also
import s_cmaes as SC, s_sampling as SS, s_state as ST, s_params as SP, s_restart as SR, s_term as TM, s_objective as SO, s_effects as SE

# ---------------------------------------------------------------- C04
A = ['the objective and constraint functions are deterministic', 'rand and rand_chacha are deterministic functions of the seed']
@prop('C04', 'call graph: entropy and clock sources are confined to construction and time keeping; value graphs: the generator is built from the given seed, every draw comes from it, and no clock value reaches anything but the time limits',
      technique='static analysis: call-graph reachability of entropy and clock sources and value graphs (noninterference of the clock, provenance of every draw)', assume=A, nofeat=True)
def c04_reach(C):
    g = SE.graph(C); P = lambda *a, **k: SE.path(C, C.fn(*a, **k))
    new, rnew = P('CMAES', 'new', sig=('F', 'CMAESOptions')), P('Restarter', 'new', sig=('RestartOptions',))
    ok = [new, rnew, P('CMAESOptions', 'build'), P('RestartOptions', 'build')]
    inner = {SE.path(C, C.fn('Restarter', 'run_internal'))}
    for c, q, sp, p in g.sites('entropy'):
        up = g.reach_avoiding_up(p, {new, rnew})
        bad = sorted(x for x in up if x in g.pub)
        C.fact('entropy.%s.%s' % (p, q), 'entropy is drawn in the two constructions only', not bad, '%s %s' % (sp, p), got='%s called in %s, reachable from %s' % (q, p, ', '.join(bad[:3])), want='CMAES::new, Restarter::new')
    # in everything that runs after construction
    pure = [('Sampler', 'sample', SE_SIG), ('Sampler', 'sample_parallel', SE_SIG), ('History', 'update', None), ('State', 'update', None)]
    pure += [(n, 'has_zero_max_runs', None) for n in SR.SN]
    for ty, nm, sig in pure:
        p = SE.path(C, C.fn(ty, nm, sig=sig) if nm != 'has_zero_max_runs' else C.fn(ty, nm, trait='Strategy'))
        cone = g.below(p)
        for c in ('entropy', 'clock', 'env', 'input', 'net', 'process', 'thread'):
            hit = sorted({s[2] + ' ' + s[1] for s in g.sites(c) if s[3] in cone})
            C.fact('pure.%s.%s.%s' % (ty, nm, c), 'depends on no %s' % c, not hit, hit[0] if hit else p, got=hit[:2], want='none')
    for c in ('env', 'input', 'net', 'process', 'thread', 'machine'):
        s = g.sites(c)
        C.fact('none.' + c, 'no %s is consulted anywhere' % c, not s, s[0][2] + ' ' + s[0][3] if s else '', got=['%s at %s' % (x[1], x[2]) for x in s[:3]], want='none')
    # no state outside the values
    for i in C.db.items:
        if 'static' in i:
            ok = i['mut'] in (0, '0') and str(i.get('freeze', 1)) == '1' and str(i.get('local', 0)) == '0'
            C.fact('static.' + i['static'], 'no global state survives between runs', ok, i.get('span', ''), got='static %s: %s' % (i['static'], i.get('ty')), want='no interior mutability')
    tl = [t['s'] for t in C.db.types if t.get('path') == 'std::thread::local::LocalKey']
    C.fact('thread.local', 'no thread-local state', not tl, '', got=tl[:2], want='none')
SE_SIG = ('&mut Sampler<F>', '&State', 'Mode', 'bool')

def seeded(C, key, r, opt, seed, rng, fixed=()):
    """seed: given if any, else from entropy, and the generator is made from it"""
    F = C.F
    given = is_variant(opt, OPT, 1); fx = list(fixed)
    gens = {t.args[2] for t in find(rng, lambda t: t.op == 'app' and t.args[0] == 'rng')}
    if len(gens) != 1:
        C.fact(key + '.generator', 'one generator made from the seed', False, r.body['p'], got=show(rng)[:200], want='seeded from the seed', undecided='has an unmodelled part' if r.I.unmodelled else None); return
    alg = gens.pop();
    make = lambda s: app('rng', s, alg)
    C.ob(key + '.seed', 'the seed recorded is the given one', seed, C.some(opt), facts=fx + [given], res=r)
    C.ob(key + '.generator', 'the generator is made from the given seed', rng, make(C.some(opt)), facts=fx + [given], res=r)
    # without a seed: one entropy value, recorded and used
    ent = find(seed, lambda t: t.op == 'app' and t.args[0] == 'entropy')
    if len(ent) == 1:
        C.ob(key + '.fresh', 'without a seed one is drawn from entropy', seed, ent[0], facts=fx + [b_not(given)], res=r)
        C.ob(key + '.reported', 'and the generator is made from the seed recorded', rng, make(ent[0]), facts=fx + [b_not(given)], res=r)
    else: C.fact(key + '.fresh', 'without a seed one is drawn from entropy', False, r.body['p'], got=show(seed)[:200], want='one entropy value', undecided='has an unmodelled part' if r.I.unmodelled else None)
    C.ob(key + '.entropy', 'no entropy is drawn when a seed is given', b_or(*[e.guard for e in r.events if e.kind == 'entropy']), FALSE, facts=fx + [given], res=r)

def clocks(t): return find(t, lambda x: x.op == 'app' and x.args[0] in ('now', 'elapsed') or x.op == 'app' and 'Instant' in str(x.args[0]) or x.op == 'app' and 'SystemTime' in str(x.args[0]))
def entropies(t): return find(t, lambda x: x.op == 'app' and x.args[0] == 'entropy')
def unclocked(C, key, t, r, what='no clock value in it'):
    c = clocks(t)
    C.fact(key, what, not c, r.body['p'], got='depends on %s' % ', '.join(show(x)[:80] for x in c[:3]), want='independent of the clock')

@also('C04')
def c04_new(C):
    F = C.F
    r = SP.built(C); o = r.a[1]; v = C.payload(r.ret, 0)
    chk, facts = SP.valid(C, o); ok = facts + [b_not(c) for n, c in chk]
    v = restrict(v, {}) 
    seeded(C, 'CMAES.new', r, F(o, 'seed'), F(v, 'parameters.seed'), F(v, 'sampler.rng'), ok)
    for f in C.fields('CMAES'):
        if f == 'time_created': continue
        if f in ('sampler', 'parameters', 'state', 'history'):
            for q in C.fields({'sampler': 'Sampler', 'parameters': 'Parameters', 'state': 'State', 'history': 'History'}[f]):
                x = F(v, f + '.' + q)
                unclocked(C, 'CMAES.new.clock.%s.%s' % (f, q), x, r)
                if (f, q) not in (('sampler', 'rng'), ('parameters', 'seed')):
                    e = entropies(x); C.fact('CMAES.new.entropy.%s.%s' % (f, q), 'nothing but the seed and generator depends on entropy', not e, r.body['p'], got=[show(y)[:80] for y in e[:2]], want='independent')
        else: unclocked(C, 'CMAES.new.clock.' + f, F(v, f), r)
    r = C.run(C.fn('Parameters', 'seed')); C.ob('access.Parameters.seed', 'the recorded seed is reported', r.ret, F(r.a[0], 'seed'), res=r)

@also('C04')
def c04_restarter(C):
    F = C.F
    r = C.run(C.fn('Restarter', 'new', sig=('RestartOptions',))); o = r.a[0]; v = C.payload(r.ret, 0)
    dim0 = eq(F(o, 'dimensions'), ZERO); empty = eq(sub(F(o, 'search_range.end'), F(o, 'search_range.start')), ZERO)
    seeded(C, 'Restarter.new', r, F(o, 'seed'), F(v, 'seed'), F(v, 'rng'), [b_not(dim0), b_not(empty)])
    for f in C.fields('Restarter'):
        unclocked(C, 'Restarter.new.clock.' + f, F(v, f), r)
    try:
        r = C.run(C.fn('Restarter', 'seed')); C.ob('access.Restarter.seed', 'the recorded seed is reported', r.ret, F(r.a[0], 'seed'), res=r)
    except Undecided as e: C.undecided('access.Restarter.seed', 'the recorded seed is reported', e)

@also('C04')
def c04_draws(C):
    F = C.F
    for n, r in SS.each(C):
        SS.place_rng(C, r, n + '.generator')
        for i, x in ((0, r.post(0)), ('', r.ret)): unclocked(C, '%s.clock%s' % (n, i), x, r)
    # the restart loop: every draw from the restarter's generator, every run seeded by a draw
    r = SR.restart(C)
    d = [e for e in r.events if e.kind == 'draw']
    src = lambda e: e.args[0] if e.args else None
    s = SR.rspec(C); a0 = r.a[0]
    o, rng = s.ev.args[1], s.ev.args[4]
    sd = F(o, 'seed')
    C.ob('restart.seeded', 'every run has a seed', is_variant(sd, OPT, 1), TRUE, res=r)
    draws = find(C.some(sd), lambda t: t.op == 'app' and t.args[0].startswith('draw:'))
    leaf = [t for t in find(C.some(sd), lambda t: t.op == 'sym')]
    C.fact('restart.seed', 'which is a draw of the restarter\'s generator', len(draws) == 1 and C.some(sd) is draws[0] and draws[0].args[1] is rng, r.body['p'], got=show(C.some(sd))[:200], want='a draw from the generator handed to the strategy')
    bad = [e for e in r.events if e.kind == 'entropy']
    C.fact('restart.entropy', 'no entropy is drawn in the restart loop', not bad, r.body['p'], got=[e.name for e in bad], want='none')
    for f in C.fields('CMAESOptions'): unclocked(C, 'restart.clock.option.' + f, F(o, f), r, 'no clock value reaches the options of a run')
    for i in (0, 2, 3, 4): unclocked(C, 'restart.clock.arg%d' % i, s.ev.args[i], r, 'no clock value reaches a run')
    # strategies
    for n in SR.SN:
        r = SR.strategy(C, n)
        d = [e for e in r.events if e.kind == 'draw']
        bad = [e for e in d if not all(p is not None and p[0] == ('A', 5) for p in (e.extra or [None]))]
        C.fact('strategy.%s.draws' % n, 'draws come from the given generator only', not bad, r.body['p'], got=[(e.name, str(e.extra)) for e in bad[:3]], want='the generator of the restarter')
        bad = [e for e in r.events if e.kind in ('entropy', 'rng')]
        C.fact('strategy.%s.entropy' % n, 'no other generator is made', not bad, r.body['p'], got=[e.name for e in bad], want='none')
        for j in ('0', '1', '2'): unclocked(C, 'strategy.%s.clock.%s' % (n, j), F(r.ret, j), r)
        unclocked(C, 'strategy.%s.clock.after' % n, r.post(0), r)

@also('C04')
def c04_steps(C):
    F = C.F
    for par in SC.PARS:
        r = SC.step(C, par); n = SC.NEXT[par]
        unclocked(C, n + '.clock.result', r.ret, r)
        for f in C.fields('CMAES'): unclocked(C, '%s.clock.%s' % (n, f), F(r.post(0), f), r)
        r, b, nx, L, fin = SC.runs(C, par); n = SC.RUN[par]
        unclocked(C, n + '.clock.result', r.ret, r)
        for f in C.fields('CMAES'): unclocked(C, '%s.clock.%s' % (n, f), F(r.post(0), f), r)
    r = TM.check(C)
    for nm in TM.NAMES + ('InvalidFunctionValue', 'PosDefCov'):
        if nm != 'MaxTime': unclocked(C, 'criteria.clock.' + nm, TM.reported(C, r.ret, nm), r, 'only the time limit depends on the clock')
    v = TM.vals(C, r)
    C.ob('criteria.notime', 'without a time limit no criterion depends on the clock', TM.reported(C, r.ret, 'MaxTime'), FALSE, facts=[b_not(is_variant(F(v.t, 'max_time'), OPT, 1))], res=r)

# ---------------------------------------------------------------- C05
AP = ['rayon\'s indexed parallel iterators collect in index order and reduce to the sum (documented)', 'real arithmetic: the order of a sum does not matter', 'the sequential and parallel evaluation of the given objective are the same function']
def twin(C, key, rule, rs, rp, fields=None, skip=()):
    """the same value graph for the result and for everything reachable through the arguments"""
    m = {b: a for a, b in zip(rs.a, rp.a) if a is not b}
    tr = lambda t: subst(t, m) if m else t
    def cmp(k, got, want):
        C.ob(k, rule, tr(got), want, res=rp)
    cmp(key + '.result', rp.ret, rs.ret)
    for i in range(len(rs.a)):
        x, y = rs.post(i), rp.post(i)
        if x is rs.a[i] and y is rp.a[i]: continue
        fs = fields if i == 0 and fields else None
        if fs:
            for f in C.fields(fs):
                if f not in skip: cmp('%s.%s' % (key, f), C.F(y, f), C.F(x, f))
        else: cmp('%s.after%d' % (key, i), y, x)

@prop('C05', 'relational value numbering: both members of every parallel/sequential pair have the same value graph', technique='static analysis: value graphs of each pair of entry points, compared term by term', assume=AP, nofeat=True)
def c05_sampling(C):
    F = C.F
    rs, rp = SS.sample(C, 'sample'), SS.sample(C, 'sample_parallel')
    if len(rs.a) != len(rp.a): raise Undecided('the two entry points take different arguments')
    ys, yp = SS.ytermloop(C, rs), SS.ytermloop(C, rp)
    C.ob('sample.steps', 'both draw and filter the same steps', subst(yp, {b: a for a, b in zip(rs.a, rp.a)}), ys, res=rp)
    Y = sym('Y', 'seq')
    class R: pass
    def cut(r, y):
        q = R(); q.a = r.a; q.body = r.body; q.I = r.I; q.ret = subst(r.ret, {y: Y}); q.post = lambda i: subst(r.post(i), {y: Y})
        for n in ('stats', 'events'): setattr(q, n, getattr(r, n))
        return q
    qs, qp = cut(rs, ys), cut(rp, yp)
    twin(C, 'sample', 'parallel evaluation gives the same individuals in the same order and the same sampler', qs, qp, 'Sampler')
    for n, r in (('sample', qs), ('sample_parallel', qp)):
        flag = SE.atom(boolterm(r.a[3]))
        if flag.kind != 'bool': C.undecided(n + '.flag', 'parallel sorting gives the same order', 'the flag was not found'); continue
        for lab, got, want in (('result', restrict(r.ret, {flag: True}), restrict(r.ret, {flag: False})), ('after', restrict(r.post(0), {flag: True}), restrict(r.post(0), {flag: False}))):
            C.ob('%s.flag.%s' % (n, lab), 'the parallel update option changes nothing about sampling and sorting', got, want, res=r)
    for e, lab in ((rs, 'sample'), (rp, 'sample_parallel')):
        c = subst(count(e.ev('evaluate')), {ys: Y, yp: Y})
        C.ob(lab + '.calls', 'the same number of evaluations', c, seqlen(Y), res=e)

@also('C05')
def c05_update(C):
    F = C.F
    r = ST.update(C); flag = SE.atom(boolterm(F(r.a[2], 'parallel_update')))
    def both(key, t): C.ob(key, 'the parallel update computes the same value', restrict(t, {flag: True}), restrict(t, {flag: False}), res=r)
    both('update.result', r.ret)
    p = r.post(0)
    for f in C.fields('State'):
        if f == 'cov':
            for g in C.fields('CovarianceMatrix'): both('update.cov.' + g, F(p, 'cov.' + g))
        else: both('update.' + f, F(p, f))
    for e in r.ev('par_reduce'):
        n, x, l, q = e.args
        C.ob('update.reduce.neutral', 'the value a parallel reduction starts from is neutral, however often it is used', n, x, res=r)
        C.ob('update.reduce.assoc', 'a parallel reduction does not depend on how the terms are grouped', l, q, res=r)
    # nothing else looks at the flag
    r = TM.check(C); v = TM.vals(C, r); flag = SE.atom(boolterm(F(v.P, 'parallel_update')))
    for nm in TM.NAMES:
        t = TM.reported(C, r.ret, nm)
        C.fact('criteria.flag.' + nm, 'the option does not influence termination', not find(t, lambda x: x is flag), r.body['p'], got='depends on parallel_update', want='independent')
    r = SP.built(C); o = r.a[1]; flag = SE.atom(boolterm(F(o, 'parallel_update'))); v = C.payload(r.ret, 0)
    for f, ty in (('sampler', 'Sampler'), ('parameters', 'Parameters'), ('state', 'State'), ('history', 'History')):
        for q in C.fields(ty):
            if (f, q) == ('parameters', 'parallel_update'): continue
            t = F(v, f + '.' + q)
            C.fact('construction.flag.%s.%s' % (f, q), 'the option changes nothing else in construction', not find(t, lambda x: x is flag), r.body['p'], got='depends on parallel_update', want='independent')

@also('C05')
def c05_step(C):
    F = C.F
    rs, rp = SC.step(C, False), SC.step(C, True)
    twin(C, 'next', 'a parallel step is the sequential one with only the evaluation replaced', rs, rp, 'CMAES')
    for kind in ('print_info', 'print_final', 'print_initial', 'sample', 'hist_update', 'state_update', 'check'):
        C.ob('next.count.' + kind, 'with the same operations', subst(count(rp.ev('call', kind)), {rp.a[0]: rs.a[0]}), count(rs.ev('call', kind)), res=rp)
    rs, rp = SC.runs(C, False)[0], SC.runs(C, True)[0]
    twin(C, 'run', 'a parallel run is the sequential one with only the step replaced', rs, rp, 'CMAES')
    C.ob('run.count.print_final', 'with the same operations', subst(count(rp.ev('call', 'print_final')), {rp.a[0]: rs.a[0]}), count(rs.ev('call', 'print_final')), res=rp)

def helper2(C, nm, how):
    key = 'helper2:' + nm
    r = C.cache.get(key)
    if r is None:
        bs = [C.bar('CMAES', 'new', 'cmaes_new', ('F', 'CMAESOptions')), C.bar('CMAES', how, 'complete_run', ('&mut CMAES<F>',)), C.bar('CMAES', 'run' if how != 'run' else 'run_parallel', 'other_run', ('&mut CMAES<F>',))]
        r = C.cache[key] = C.run(C.fn(None, nm), barriers=[b.handler() for b in bs])
    C.analysed.setdefault(r.body['p'], r.stats)
    return r
@also('C05')
def c05_helpers(C):
    for s in ('fmin', 'fmax'):
        try: twin(C, s, 'the parallel helper is the sequential one with only the run replaced', helper2(C, s, 'run'), helper2(C, s + '_parallel', 'run_parallel'))
        except Undecided as e: C.undecided(s, 'the parallel helper is the sequential one with only the run replaced', e)

@also('C05')
def c05_restarts(C):
    for nm, (reuse, par) in SR.ENTRY.items():
        try: SR.entry(C, nm, reuse, par)
        except Undecided as e: C.undecided('entry.' + nm, 'the entry point starts the restart loop', e)

@also('C05')
def c05_objectives(C):
    """implementations of the two traits for the same type evaluate the same function at the same point"""
    F = C.F; by = {}
    for it, bid, b in SO.impls(C):
        k = shortty(C.db.ty(b['selfty'])['s']); by.setdefault(k, {})[it] = bid
    n = 0
    for k, d in sorted(by.items()):
        if len(d) != 2: continue
        rs, rp = C.run(d['ObjectiveFunction']), C.run(d['ParallelObjectiveFunction'])
        m = {b: a for a, b in zip(rs.a, rp.a)}
        ev = lambda r: [e for e in r.events if e.kind in ('apply', 'evaluate')]
        es, ep = ev(rs), ev(rp)
        if len(es) != 1 or len(ep) != 1: C.undecided('objective.' + k, 'both evaluate at the same point', 'the evaluation was not found'); continue
        n += 1; i = sym('i', 'nat')
        C.ob('objective.%s.function' % k, 'both evaluate the same function', subst(ep[0].args[0], m), es[0].args[0], res=rp)
        C.ob('objective.%s.point' % k, 'both evaluate at the same point', C.sel(subst(ep[0].args[1], m), i), C.sel(es[0].args[1], i), res=rp)
