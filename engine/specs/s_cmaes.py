"""The optimizer's step, run and construction: src/lib.rs (C01, C03, C05, C08, C18, C19, C21, C23)"""
from core import *
from registry import prop, also

EP = '&[EvaluatedPoint]'
class B: pass
def bars(C, par=False):
    key = 'bars%d' % par
    b = C.cache.get(key)
    if b is not None: return b
    b = B()
    b.sample = C.bar('Sampler', 'sample_parallel' if par else 'sample', 'sample', ('&mut Sampler<F>', '&State', 'Mode', 'bool'))
    b.hist = C.bar('History', 'update', 'hist_update', ('&mut History', 'Mode', EP))
    b.state = C.bar('State', 'update', 'state_update', ('&mut State', 'usize', '&Parameters', EP))
    b.check = C.bar('TerminationCheck', 'check_termination_criteria', 'check', ("TerminationCheck<'_>",))
    b.info = C.bar('CMAES', 'print_info', 'print_info', ('&CMAES<F>',))
    b.final = C.bar('CMAES', 'print_final_info', 'print_final', ('&CMAES<F>', '&[TerminationReason]'))
    b.initial = C.bar('CMAES', 'print_initial_info', 'print_initial', ('&CMAES<F>',))
    b.all = [b.sample, b.hist, b.state, b.check, b.info, b.final, b.initial]
    if C.plot:
        b.point = C.bar('Plot', 'add_data_point', 'add_point', ('&mut Plot', 'usize', '&State', '&History'))
        b.due = C.bar('Plot', 'get_next_data_point_evals', 'next_point', ('&Plot',))
        b.all += [b.point, b.due]
    C.cache[key] = b
    return b

NEXT = {False: 'next', True: 'next_parallel'}
RUN = {False: 'run', True: 'run_parallel'}
SAMPLE = {False: 'sample', True: 'sample_parallel'}
PARS = (False, True)

def step(C, par):
    key = 'step%d' % par
    r = C.cache.get(key)
    if r is None:
        b = bars(C, par)
        r = C.cache[key] = C.run(C.fn('CMAES', NEXT[par], sig=('&mut CMAES<F>',)), barriers=[x.handler() for x in b.all])
    C.analysed.setdefault(r.body['p'], r.stats)
    return r

class S: pass
def sspec(C, r, par):
    """the documented step"""
    key = 'sspec%d' % par
    s = C.cache.get(key)
    if s is not None: return s
    b = bars(C, par); F = C.F; a = r.a[0]
    s = S(); C.cache[key] = s
    P = F(a, 'parameters'); mode = F(P, 'mode')
    v = (F(a, 'sampler'), F(a, 'state'), mode, F(P, 'parallel_update'))
    res = b.sample(*v)
    s.invalid = is_variant(res, RES, 1)
    s.sampler = b.sample.post(0, *v)
    s.evals = F(s.sampler, 'function_evals')
    ind = s.ind = C.payload(res, 0)
    s.hist1 = b.hist.post(0, F(a, 'history'), mode, ind)
    sv = (F(a, 'state'), s.evals, P, ind)
    s.posdef = is_variant(b.state(*sv), RES, 1)
    s.state1 = b.state.post(0, *sv)
    s.hist = ite(s.invalid, F(a, 'history'), s.hist1)
    s.state = ite(s.invalid, F(a, 'state'), s.state1)
    s.live = b_and(b_not(s.invalid), b_not(s.posdef))
    chk = C.struct('TerminationCheck', current_function_evals=s.evals, time_created=F(a, 'time_created'), parameters=P, state=s.state1, history=s.hist1, individuals=ind)
    s.reasons = b.check(chk)
    R = lambda n: models.mklist([C.enum('TerminationReason', n)])
    def data(h, st, reasons):
        return C.struct('TerminationData', current_best=F(h, 'current_best_individual'), overall_best=F(h, 'overall_best_individual'), final_mean=F(st, 'mean'), reasons=reasons)
    s.ret = ite(s.invalid, Some(data(F(a, 'history'), F(a, 'state'), R('InvalidFunctionValue'))),
                ite(s.posdef, Some(data(s.hist1, s.state1, R('PosDefCov'))),
                    ite(ge(seqlen(s.reasons), ONE), Some(data(s.hist1, s.state1, s.reasons)), NoneV())))
    gap = F(a, 'print_gap_evals'); last = F(a, 'last_print_evals')
    s.gapdue = b_and(s.live, is_variant(gap, OPT, 1), ge(s.evals, add(last, C.some(gap))))
    s.print = b_and(s.live, is_variant(gap, OPT, 1), b_or(ge(s.evals, add(last, C.some(gap))), lt(F(s.state1, 'generation'), num(4))))
    s.last = ite(s.gapdue, s.evals, last)
    if C.plot:
        pl = F(a, 'plot')
        s.plotdue = b_and(s.live, is_variant(pl, OPT, 1), b_or(le(F(s.state1, 'generation'), ONE), ge(s.evals, b.due(C.some(pl)))))
        s.plot = ite(s.plotdue, Some(b.point.post(0, C.some(pl), s.evals, s.state1, s.hist1)), pl)
    return s

def field_ob(C, r, s, par, nm, spec, rule):
    C.ob('%s.%s' % (NEXT[par], nm), rule, C.F(r.post(0), nm), spec, res=r)

def each(C):
    for par in PARS:
        r = step(C, par)
        yield par, r, sspec(C, r, par)

def o_ret(C):
    for par, r, s in each(C):
        C.ob(NEXT[par] + '.result', 'termination data iff sampling or the update failed or a criterion holds, with those reasons, the best individuals and the mean after the step', r.ret, s.ret, res=r)
def o_sampler(C):
    for par, r, s in each(C): field_ob(C, r, s, par, 'sampler', s.sampler, 'exactly one generation is sampled from the current state, in the configured mode')
def o_state(C):
    for par, r, s in each(C): field_ob(C, r, s, par, 'state', s.state, 'one update from the sampled individuals; none after a rejected generation')
def o_history(C):
    for par, r, s in each(C): field_ob(C, r, s, par, 'history', s.hist, 'one history update with the sampled individuals, before the state update; none after a rejected generation')
def o_fixed(C):
    for par, r, s in each(C):
        for nm in ('parameters', 'print_gap_evals', 'time_created'):
            field_ob(C, r, s, par, nm, C.F(r.a[0], nm), 'a step leaves it alone')
def o_once(C):
    for par, r, s in each(C):
        for lab, want, what in (('sample', ONE, 'one generation is sampled'), ('hist_update', ite(s.invalid, ZERO, ONE), 'histories updated once'),
                                ('state_update', ite(s.invalid, ZERO, ONE), 'state updated once'), ('check', ite(s.live, ONE, ZERO), 'criteria checked once')):
            C.ob('%s.once.%s' % (NEXT[par], lab), what, count(r.ev('call', lab)), want, res=r)

def runs(C, par):
    key = 'runs%d' % par
    r = C.cache.get(key)
    b = bars(C, par)
    nx = C.bar('CMAES', NEXT[par], 'next', ('&mut CMAES<F>',))
    if r is None:
        r = C.cache[key] = C.run(C.fn('CMAES', RUN[par], sig=('&mut CMAES<F>',)), barriers=[x.handler() for x in b.all + [nx]])
    C.analysed.setdefault(r.body['p'], r.stats)
    a = r.a[0]
    L = C.loop([a], lambda k, v: (is_variant(nx(v[0]), OPT, 1), [nx.post(0, v[0])]))[0]
    fin = nx.post(0, L)
    return r, b, nx, L, fin

def o_run(C):
    for par in PARS:
        r, b, nx, L, fin = runs(C, par)
        C.ob(RUN[par] + '.result', 'steps are made until the first that returns termination data, which is returned', r.ret, C.some(nx(L)), res=r)
        post = r.post(0)
        for nm in ('sampler', 'state', 'history', 'parameters', 'time_created', 'print_gap_evals', 'last_print_evals'):
            C.ob('%s.%s' % (RUN[par], nm), 'nothing changes after the last step', C.F(post, nm), C.F(fin, nm), res=r)

def o_runplot(C):
    if not C.plot: return
    for par in PARS:
        r, b, nx, L, fin = runs(C, par)
        pl = C.F(fin, 'plot')
        want = ite(is_variant(pl, OPT, 1), Some(b.point.post(0, C.some(pl), C.F(fin, 'sampler.function_evals'), C.F(fin, 'state'), C.F(fin, 'history'))), NoneV())
        C.ob(RUN[par] + '.plot', 'the final state is recorded when a plot is enabled', C.F(r.post(0), 'plot'), want, res=r)

def o_plot(C):
    if not C.plot: return
    for par, r, s in each(C): field_ob(C, r, s, par, 'plot', s.plot, 'recorded in the first generations and when the next recording is due, with the state after the step; otherwise untouched')

def o_print(C):
    for par, r, s in each(C):
        C.ob(NEXT[par] + '.print', 'a status line iff printing is enabled and the gap has passed or the generation is below four', count(r.ev('call', 'print_info')), ite(s.print, ONE, ZERO), res=r)
        field_ob(C, r, s, par, 'last_print_evals', s.last, 'the count at the last gap line')
        for lab in ('print_final', 'print_initial'):
            C.ob('%s.no.%s' % (NEXT[par], lab), 'not printed by a step', count(r.ev('call', lab)), ZERO, res=r)
    for par in PARS:
        r, b, nx, L, fin = runs(C, par)
        C.ob(RUN[par] + '.print_final', 'final information iff printing is enabled', count(r.ev('call', 'print_final')), ite(is_variant(C.F(fin, 'print_gap_evals'), OPT, 1), ONE, ZERO), res=r)

prop('C18', 'the value graph of a step and of a full run equals the documented protocol', assume=['the summarised parts (sampling, histories, state update, criteria) are decided by C06 to C08, C19, C12 to C14, C15 to C17'], nofeat=True)(o_ret)
for f in (o_sampler, o_state, o_history, o_fixed, o_once, o_run): also('C18')(f)
for f in (o_ret, o_sampler, o_state, o_history, o_fixed): also('C08')(f)
also('C03')(o_sampler); also('C03')(o_state)
also('C15', 'C16', 'C17')(o_ret)
