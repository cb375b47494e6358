"""Plot data (C21) and printing (C23): src/plotting/{mod,data,options}.rs, src/lib.rs"""
from core import *
from registry import prop, also
import s_cmaes as SC, s_history as SH

SERIES = ('function_evals', 'best_function_value', 'median_function_value', 'sigma', 'axis_ratio')
DIMS = ('mean_dimensions', 'sqrt_eigenvalues', 'coord_axis_scales')
TINY = num(Q(1, 10 ** 20))
def offset(x): return ite(ge(x, ZERO), add(x, TINY), sub(x, TINY))
def diag(m, i): return midx(m, i, i)

def o_record(C):
    """one recorded generation"""
    if not C.plot: return
    r = C.run(C.fn('PlotData', 'add_data_point', sig=('&mut PlotData', 'usize', '&State', '&History')))
    d, ev, st, h = r.a; p = r.post(0)
    best = C.F(h, 'current_best_individual'); med = C.F(h, 'median_function_values')
    cov = C.F(st, 'cov.cov'); D = C.F(st, 'cov.sqrt_eigenvalues')
    dg = models.M['Matrix::diagonal']; i = sym('i', 'nat'); k = sym('k', 'nat')
    want = {'function_evals': ([], ev),
            'best_function_value': ([is_variant(best, OPT, 1)], offset(C.F(C.some(best), 'value'))),
            'median_function_value': ([ge(seqlen(med), ONE)], offset(C.sel(med, ZERO))),
            'sigma': ([], offset(C.F(st, 'sigma'))),
            'axis_ratio': ([], offset(mul(T.extreme(True, diagv(D)), inv(T.extreme(False, diagv(D))))))}
    what = 'the entries so far, then the value of this generation'
    for nm, (fx, v) in want.items():
        old, new = C.F(d, nm), C.F(p, nm); n = seqlen(old)
        C.ob('record.%s.length' % nm, 'one entry more', seqlen(new), add(n, ONE), res=r)
        C.ob('record.' + nm, what, C.sel(new, k), ite(lt(k, n), C.sel(old, k), v), facts=fx + [le(k, n)], res=r)
    m = C.F(st, 'mean'); dim = seqlen(m)
    want = {'mean_dimensions': C.sel(m, i), 'coord_axis_scales': offset(sqrt(diag(cov, i))),
            'sqrt_eigenvalues': offset(select(app('sorted', diagv(D), string('natural'), kind='seq', ty=diagv(D).ty), i, 'real'))}
    for nm, v in want.items():
        old, new = C.sel(C.F(d, nm), i), C.sel(C.F(p, nm), i); n = seqlen(old)
        rows = [lt(i, seqlen(m)), lt(i, nrows(cov)), lt(i, nrows(D)), lt(i, seqlen(C.F(d, nm)))]
        C.ob('record.%s.length' % nm, 'one entry more in every dimension', seqlen(new), add(n, ONE), facts=rows, res=r)
        C.ob('record.' + nm, what + ', in every dimension', C.sel(new, k), ite(lt(k, n), C.sel(old, k), v), facts=rows + [le(k, n)], res=r)
def diagv(m): return app('diag', m, kind='mat', ty=m.ty)
def nrows(m): return seqlen(diagv(m))

def o_once(C):
    """a generation is recorded at most once; what is due next"""
    if not C.plot: return
    b = C.bar('PlotData', 'add_data_point', 'record', ('&mut PlotData', 'usize', '&State', '&History'))
    r = C.run(C.fn('Plot', 'add_data_point', sig=('&mut Plot', 'usize', '&State', '&History')), barriers=[b.handler()])
    pl, ev, st, h = r.a; p = r.post(0); g = C.F(st, 'generation')
    lg = C.F(pl, 'last_data_point_generation')
    dup = b_and(is_variant(lg, OPT, 1), eq(C.some(lg), g))
    for nm, new in (('data', b.post(0, C.F(pl, 'data'), ev, st, h)), ('last_data_point_evals', Some(ev)), ('last_data_point_generation', Some(g))):
        C.ob('once.' + nm, 'recorded unless this generation already is', C.F(p, nm), ite(dup, C.F(pl, nm), new), res=r)
    for nm in ('options', 'mode'):
        C.ob('once.' + nm, 'unchanged', C.F(p, nm), C.F(pl, nm), res=r)
    r = C.run(C.fn('Plot', 'get_next_data_point_evals', sig=('&Plot',))); pl = r.a[0]
    last = C.F(pl, 'last_data_point_evals')
    C.ob('due', 'the configured gap after the last recorded evaluation count, at once when nothing is recorded', r.ret, ite(is_variant(last, OPT, 1), add(C.some(last), C.F(pl, 'options.min_gap_evals')), ZERO), res=r)

def o_new(C):
    if not C.plot: return
    r = C.run(C.fn('Plot', 'new', sig=('usize', 'PlotOptions', 'Mode'))); dim, opt, mode = r.a
    d = C.F(r.ret, 'data'); i = sym('i', 'nat')
    for nm in SERIES: C.ob('new.' + nm, 'empty', seqlen(C.F(d, nm)), ZERO, res=r)
    for nm in DIMS:
        C.ob('new.%s.dimensions' % nm, 'one series per dimension', seqlen(C.F(d, nm)), dim, res=r)
        C.ob('new.' + nm, 'every series empty', seqlen(C.sel(C.F(d, nm), i)), ZERO, facts=[lt(i, dim)], res=r)
    for nm, v in (('options', opt), ('mode', mode), ('last_data_point_evals', NoneV()), ('last_data_point_generation', NoneV())):
        C.ob('new.' + nm, 'the given options; nothing recorded yet', C.F(r.ret, nm), v, res=r)

def o_clear(C):
    if not C.plot: return
    for ty, pre in (('Plot', 'data.'), ('PlotData', '')):
        r = C.run(C.fn(ty, 'clear')); d0, d1 = r.a[0], r.post(0); i = sym('i', 'nat')
        n = seqlen(C.F(d0, pre + 'function_evals'))
        for nm in SERIES + DIMS:
            old, new = C.F(d0, pre + nm), C.F(d1, pre + nm); fx = []
            if nm in DIMS:
                C.ob('%s.clear.%s.dimensions' % (ty, nm), 'one series per dimension stays', seqlen(new), seqlen(old), res=r)
                fx = [lt(i, seqlen(old))]; old, new = C.sel(old, i), C.sel(new, i)
            fx = fx + [ge(seqlen(old), ONE)]
            C.ob('%s.clear.%s.length' % (ty, nm), 'one entry stays', seqlen(new), ONE, facts=fx, res=r)
            C.ob('%s.clear.%s' % (ty, nm), 'the latest entry stays', C.sel(new, ZERO), C.sel(old, sub(seqlen(old), ONE)), facts=fx, res=r)
        if pre:
            for nm in ('options', 'mode', 'last_data_point_evals', 'last_data_point_generation'):
                C.ob('%s.clear.%s' % (ty, nm), 'unchanged', C.F(d1, nm), C.F(d0, nm), res=r)

def o_plot_access(C):
    if not C.plot: return
    for ty, pre in (('Plot', 'data.'), ('PlotData', '')):
        r = C.run(C.fn(ty, 'len')); n = seqlen(C.F(r.a[0], pre + 'function_evals'))
        C.ob(ty + '.len', 'the number of recorded generations', r.ret, n, res=r)
        r = C.run(C.fn(ty, 'is_empty')); n = seqlen(C.F(r.a[0], pre + 'function_evals'))
        C.ob(ty + '.is_empty', 'no recorded generation', r.ret, eq(n, ZERO), res=r)
    SH.access(C, 'PlotData', SERIES + DIMS)
    r = C.run(C.fn('PlotOptions', 'new')); 
    C.ob('PlotOptions.new', 'as given', r.ret, C.struct('PlotOptions', min_gap_evals=r.a[0], scientific_notation=r.a[1]), res=r)

def o_add_point(C):
    """CMAES::add_plot_point: records the current state, changes nothing else"""
    if not C.plot: return
    b = SC.bars(C)
    r = C.run(C.fn('CMAES', 'add_plot_point', sig=('&mut CMAES<F>',)), barriers=[x.handler() for x in b.all])
    a, p = r.a[0], r.post(0); pl = C.F(a, 'plot')
    for nm in C.fields('CMAES'):
        want = C.F(a, nm)
        if nm == 'plot': want = ite(is_variant(pl, OPT, 1), Some(b.point.post(0, C.some(pl), C.F(a, 'sampler.function_evals'), C.F(a, 'state'), C.F(a, 'history'))), NoneV())
        C.ob('add_plot_point.' + nm, 'the current state is recorded; the optimizer is untouched', C.F(p, nm), want, res=r)

@prop('C21', 'value graphs of recording, clearing, creation and of every caller equal the documented series, entry by entry', assume=['values are ordinary numbers (the tiny offset is applied as x +- 1e-20)', 'all series have equal length when an operation starts (established by new, kept by every operation)', 'saturating addition read as addition'])
def c21(C): o_record(C)
for f in (o_once, o_new, o_clear, o_plot_access, o_add_point, SC.o_plot, SC.o_runplot): also('C21')(f)
for f in (SC.o_state, SC.o_sampler, SC.o_history, SC.o_fixed): also('C21')(f)
