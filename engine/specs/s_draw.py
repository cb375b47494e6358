"""C36: what a saved plot hands to the drawing library: src/plotting/{mod,draw}.rs"""
from core import *
from registry import prop, also
import s_plot as SP
from s_effects import settle

ONEDIM = ('best_function_value', 'median_function_value', 'sigma', 'axis_ratio')
DIMS = SP.DIMS

def recorded(C):
    """a plot with n recorded generations of dimension d (parallel series: C21)"""
    n = sym('n', 'nat'); d = sym('d', 'nat')
    val = {}
    def one(nm, kind='real'):
        val[nm] = lambda k: app(nm, k, kind=kind)
        j = fresh('k', 'nat'); return T.seq(j, n, app(nm, j, kind=kind))
    def many(nm):
        val[nm] = lambda i, k: app(nm, i, k, kind='real')
        i = fresh('i', 'nat'); j = fresh('k', 'nat')
        return T.seq(i, d, T.seq(j, n, app(nm, i, j, kind='real')))
    f = {'function_evals': one('function_evals', 'nat')}
    for nm in ONEDIM: f[nm] = one(nm)
    for nm in DIMS: f[nm] = many(nm)
    return n, d, val, C.struct('PlotData', **f)

def noerr(t):
    """no drawing operation fails"""
    return settle(t, lambda a: (a.args[2] == 0) if a.op == 'is' and a.args[1] == RES else None)

class Panel:
    def __init__(self, area): self.area = area; self.axes = self.label = None; self.series = []; self.marks = []; self.notes = []

def panels(C):
    """the panels in the order they are drawn, each with its axes and series"""
    got = C.cache.get('panels')
    if got is not None: return got
    n, d, val, data = recorded(C)
    def plot(b): return C.struct('Plot', **{f: data if f == 'data' else C.F(b, f) for f in C.fields('Plot')})
    r = C.run(C.fn('Plot', 'build_plot'), args={0: plot}, limit=400)
    ps = []; made = {}
    for e in r.events:
        if e.kind != 'call': continue
        if e.name == 'ChartBuilder::on': ps.append(Panel(e.args[0]))
        elif e.name.split('::')[-1] in ('draw_series', 'draw', 'build_cartesian_2d', 'draw_secondary_series', 'draw_points', 'draw_text') and not ps: continue
        elif e.name.startswith('ChartBuilder::build_cartesian'): ps[-1].axes = e
        elif e.name == 'MeshStyle::y_label_formatter': ps[-1].label = e
        elif e.name == 'ChartContext::draw_series': ps[-1].series.append(e)
        elif e.name in ('SeriesAnno::label', 'SeriesAnno::legend'): ps[-1].notes.append(e)
        elif e.name == 'DrawingArea::draw': ps[-1].marks.append(e)
    got = C.cache['panels'] = (n, d, val, data, r, ps)
    return got

def points(e):
    """what a drawn series consists of, or None"""
    x = e.args[-1]
    return x.args[1] if x.op == 'app' and x.args[0] == 'LineSeries' else None

def best(C, r, n, val, ps):
    """the entry of the best recorded value, as the code finds it"""
    b = set()
    for p in ps:
        for e in p.series + p.marks:
            for x in e.args[1:]: b |= set(find(x, lambda t: t.op == 'app' and t.args[0] in ('min_by', 'max_by')))
    return sorted(b, key=lambda t: t.id)

A = ['plotters draws the points of a line series it is given and clips nothing inside the axis ranges', 'the recorded series are parallel (C21) and their values finite or NaN', 'real arithmetic']
@prop('C36', 'value graph of Plot::build_plot, executed symbolically from an arbitrary plot with n recorded generations of dimension d: every series handed to draw_series is collected and compared with the recorded data, and the axis ranges with what is drawn', assume=A)
def c36(C):
    if not C.plot: return
    n, d, val, data, r, ps = panels(C)
    site = r.body['p']
    some = [ge(n, ONE), ge(d, ONE)]
    # ---- four panels on four areas, on the image that is returned
    sp = [t for t in find_areas(ps)]
    four = lambda t: subst(t, {app('len', x, kind='nat'): num(4) for x in sp})
    r.judged = True
    for e in r.events:
        if e.kind != 'panic': continue
        g = four(noerr(e.guard))
        if g is not FALSE: C.ob('panic', 'no panic at %s %s while drawing succeeds' % (e.fn, e.span), g, FALSE, some + [ge(mul(n, d), ONE)], nan=False, res=r)
    areas = [noerr(four(p.area)) for p in ps]
    C.fact('panels.areas', 'every panel is drawn on an area of its own', len(set(areas)) == len(areas), site, got=[show(a)[-60:] for a in areas], want='distinct areas')
    img = noerr(r.ret)
    root = [x.args[1] for x in sp]
    ok = img.op == 'adt' and img.args[:2] == (RES, 0) and all(img.args[2] is noerr(x) for x in root)
    C.fact('panels.image', 'the panels divide the image that is returned for writing', ok and len(root) >= 1, site, got=show(img)[:200], want=show(root[0])[:200] if root else 'an image divided into panels', undecided='the panels are made in another way' if not root else None)
    for i, p in enumerate(ps):
        C.fact('panels.%d.axes' % i, 'a panel has axes', p.axes is not None, site)
    # ---- the best recorded value
    bs = best(C, r, n, val, ps)
    B = sym('B', 'nat'); V = val['best_function_value'](B)
    repl = {}
    mode = C.F(r.a[0], 'mode')
    if len(bs) == 1:
        b = bs[0]
        k = fresh('k', 'nat')
        y = val['best_function_value'](k)
        want = T.fseq(k, n, b_not(isnan(y)), adt('tuple', 0, k, y))
        C.ob('best.over', 'the best is sought among all recorded numbers', b.args[1], want, res=r, nan=True)
        i, j = sym('i', 'nat'), sym('j', 'nat'); x, y = sym('x', 'real'), sym('y', 'real')
        fn = b.args[2]
        if fn.op == 'bind' and fn.args[0] == 'fn2':
            op, h, nv, outer, bodies = bind_parts(fn)
            got = subst_bv(bodies[0], {h: adt('tuple', 0, i, x), h + 1: adt('tuple', 0, j, y)})
            O = lambda nm: C.enum('Ordering', nm)
            mn = ite(lt(x, y), O('Less'), ite(lt(y, x), O('Greater'), O('Equal')))
            mxx = ite(lt(y, x), O('Less'), ite(lt(x, y), O('Greater'), O('Equal')))
            if b.args[0] == 'max_by': mn, mxx = mxx, mn
            C.ob('best.order', 'best: least when minimizing, greatest when maximizing', got, ite(C.isv(mode, 'Mode', 'Minimize'), mn, mxx), res=r, nan=False)
        else: C.undecided('best.order', 'best: least when minimizing, greatest when maximizing', 'comparison not understood')
        for t in fields_of(r, ps, b):
            if t.args[1] == (0, 0): repl[t] = B
            elif t.args[1] == (0, 1): repl[t] = V
    def see(t):
        t = subst(noerr(t), repl) if repl else noerr(t)
        def f(a):
            # a best value exists, and it is one of the recorded numbers
            if a.op == 'ge' and a.args[0] is somenum and a.args[1] is ONE: return True
            if a.op == 'un' and a.args[0] is V: return False
            return None
        return settle(t, f)
    k = fresh('k', 'nat')
    somenum = seqlen(T.fseq(k, n, b_not(isnan(val['best_function_value'](k))), k))
    facts = some + [lt(B, n), ge(B, ZERO)]
    e = val['function_evals']
    # ---- the series
    def one(y, m=n, off=ZERO):
        j = fresh('k', 'nat'); i = add(j, off)
        return T.fseq(j, m, b_not(isnan(y(i))), adt('tuple', 0, e(i), y(i)))
    absv = lambda nm: (lambda j: app('abs', val[nm](j), kind='real'))
    dist = lambda j: SP.offset(app('abs', sub(val['best_function_value'](j), V), kind='real'))
    j = fresh('k', 'nat')
    many = ge(T.count(j, n, eq(val['best_function_value'](j), V)), num(2))
    left = ite(many, add(B, ONE), B)
    K = sym('K', 'nat')
    want = {'abs(f)': (one(absv('best_function_value')), None, TRUE), 'abs(median)': (one(absv('median_function_value')), None, TRUE),
            'sigma': (one(val['sigma']), None, TRUE), 'axis_ratio': (one(val['axis_ratio']), None, TRUE),
            'abs(f - best).left': (one(dist, left), None, TRUE), 'abs(f - best).right': (one(dist, sub(n, add(B, ONE)), add(B, ONE)), None, TRUE)}
    for nm in DIMS: want[nm] = (one(lambda j, nm=nm: val[nm](K, j)), K, lt(K, d))
    drawn = []
    for p in ps:
        for ev in p.series:
            pt = points(ev)
            ms = [{}]; open_ = []
            for l in ev.loops:
                N = see(l.n)
                # a loop over a written-out list: one series per entry
                if isnum(N) and numval(N) <= 16: ms = [{**m, l.k: num(i)} for m in ms for i in range(int(numval(N)))]
                else: open_.append(l.k)
            if len(open_) == 1: ms = [{**m, open_[0]: K} for m in ms]
            g = b_and(ev.guard, *[ge(see(l.rounds), l.k) for l in ev.loops])
            for m in ms: drawn.append([p, ev, subst(see(pt), m) if pt is not None else None, subst(see(g), m), m])
    found = {}
    def same(x, y, fx):
        try: return compare(x, y, fx, True, 4000) is None
        except (Budget, RecursionError): return False
    what = 'every recorded number of the series is drawn at its evaluation count, in order'
    rest = list(drawn)
    for nm, (pts, kk, g) in want.items():
        fx = facts + ([lt(K, d)] if kk is not None else [])
        hit = next((x for x in rest if x[2] is not None and same(x[2], pts, fx)), None)
        if hit is not None: rest.remove(hit); found[nm] = hit
    for nm, (pts, kk, g) in want.items():
        fx = facts + ([lt(K, d)] if kk is not None else [])
        hit = found.get(nm)
        if hit is None:
            src = nm.split('.')[0] if nm in DIMS or nm in ('sigma', 'axis_ratio') else 'median_function_value' if 'median' in nm else 'best_function_value'
            uses = lambda x: bool(find(x[2], lambda t: t.op == 'app' and t.args[0] == src))
            cand = [x for x in rest if x[2] is not None and uses(x)]
            if cand: C.ob('series.' + nm, what, cand[0][2], pts, facts=fx, res=r, nan=True, site='%s %s' % (cand[0][1].fn, cand[0][1].span))
            else:
                odd = [x for x in drawn if x[2] is None]
                C.fact('series.' + nm, what, False, site, got='no series of it reaches the drawing library', want=show(pts)[:200], undecided='other elements are drawn' if odd or any(p.axes is None for p in ps) or not ps else None)
            continue
        C.ob('series.' + nm, what, hit[2], pts, facts=fx, res=r, nan=True)
        C.ob('series.%s.always' % nm, 'whenever no drawing operation fails' + (', for every dimension' if kk is not None else ''), hit[3], g, facts=facts, res=r, nan=True)
    names(C, r, ps, found, see, K)
    # ---- the marker
    ms = [ev for p in ps for ev in p.marks if any(x.op == 'app' and x.args[0] == 'Cross::new' for x in ev.args)]
    for ev in ms:
        x = next(x for x in ev.args if x.op == 'app' and x.args[0] == 'Cross::new')
        C.ob('marker', 'the marker is at the best recorded value', see(x.args[1]), adt('tuple', 0, e(B), app('abs', V, kind='real')), facts=facts, res=r, nan=False)
    if not ms: C.fact('marker', 'the best recorded value is marked', False, site, got='no marker', want='a marker', undecided='drawn in another way' if any(p.marks for p in ps) else None)
    # ---- the axes span what is drawn
    jj = fresh('k', 'nat')
    def part(y, g=TRUE): return T.fseq(jj, n, b_and(g, b_not(isnan(y(jj)))), y(jj))
    cover = {'abs(f)': part(absv('best_function_value')), 'abs(median)': part(absv('median_function_value')), 'sigma': part(val['sigma']), 'axis_ratio': part(val['axis_ratio']),
             'abs(f - best).left': part(dist, b_or(many, b_not(eq(jj, B))))}
    for i, p in enumerate(ps):
        if p.axes is None or len(p.axes.args) < 3: continue
        s = '%s %s' % (p.axes.fn, p.axes.span)
        nms = [nm for nm, h in found.items() if h[0] is p]
        if not nms: continue
        lab = 'axes.%s' % nms[0]
        xa, ya = [find_range(see(t)) for t in p.axes.args[1:3]]
        if xa is None or ya is None:
            C.undecided(lab, 'the axes span what is drawn', 'ranges not understood'); continue
        C.ob(lab + '.x.from', 'the evaluation axis starts at the first recorded count or before', le(xa[0], e(ZERO)), TRUE, facts=facts, res=r)
        reach(C, lab + '.x.to', 'and ends at the last or after', xa[1], e(sub(n, ONE)), facts, r)
        if 'mean_dimensions' in nms:
            # the one panel with a linear axis
            v = sym('v', 'real'); how = None
            if p.label is not None:
                t = r.I.apply(p.label.args[1], [v], State(), TRUE)
                # whatever the recorded values are
                t = subst(t, {q: fresh('x', 'real') for q in find(t, lambda q: q.op == 'app' and q.args[0] in ('minelem', 'maxelem'))})
                how = map_leaves(t, lambda l: TRUE if find(l, lambda q: q.op == 'app' and q.args[0] in ('fmt:lower_exp', 'fmt:upper_exp')) else FALSE)
            if how is None: C.undecided('labels', 'scientific notation exactly when configured', 'no label formatter')
            else: C.ob('labels', 'the labels of the linear axis use scientific notation exactly when configured', how, boolterm(C.F(r.a[0], 'options.scientific_notation')), res=r)
        ends = {}
        for w, t, big in (('from', ya[0], False), ('to', ya[1], True)):
            nmx = 'maxelem' if big else 'minelem'
            el = find(t, lambda q: q.op == 'app' and q.args[0] == nmx)
            if len(el) != 1:
                C.undecided('%s.y.%s' % (lab, w), 'the value axis spans all drawn values', 'its end does not derive from one extreme value'); continue
            el = el[0]
            have = el.args[1].args if el.args[1].op == 'chunks' else [ch(TRUE, 's', el.args[1])]
            for nm in nms:
                if nm.endswith('.right'): continue
                ok, opaque = included(C, nm, have, cover.get(nm), val, n, d, K, facts)
                C.fact('%s.y.%s.%s' % (lab, w, nm), 'the value axis spans all drawn values of the series', ok, s, got=show(el)[:300], want='includes ' + nm, undecided='the values of the axis are not understood' if opaque else None)
            lo, hi = sym('lo', 'real'), sym('hi', 'real')
            other = find(t, lambda q: q.op == 'app' and q.args[0] == ('minelem' if big else 'maxelem'))
            m = {el: hi if big else lo}
            for q in other: m[q] = lo if big else hi
            t = subst(t, m)
            ends[w] = spans(C, '%s.y.%s.margin' % (lab, w), 'the range ends at the extreme value or beyond', t, lo, hi, big, r)
        if len(ends) == 2:
            fx = [b_not(isnan(lo)), b_not(isnan(hi)), le(lo, hi), le(sym('lglo', 'real'), sym('lghi', 'real'))]
            C.ob('%s.y.nonempty' % lab, 'the value axis is never empty, even when all values are equal', lt(signed(ends['from']), signed(ends['to'])), TRUE, facts=fx, res=r, nan=False)

def find_areas(ps):
    out = []
    for p in ps:
        for t in find(p.area, lambda t: t.op == 'app' and t.args[0] == 'DrawingArea::split_evenly'):
            if t not in out: out.append(t)
    return out
def fields_of(r, ps, b):
    out = set()
    for p in ps:
        for e in p.series + p.marks + ([p.axes] if p.axes else []):
            for x in list(e.args) + [e.guard]: out |= set(find(x, lambda t: t.op == 'fld' and t.args[0] is b))
    return out
def find_range(t):
    q = find(t, lambda q: q.op == 'adt' and q.args[0].split('::')[-1] in ('Range', 'RangeInclusive'))
    return (q[0].args[2], q[0].args[3]) if len(q) == 1 else None

def reach(C, key, rule, t, base, facts, r):
    """t >= base, for a base counted in evaluations"""
    q = t
    if q.op == 'app' and q.args[0] == 'toint' and q.args[1].op == 'app' and q.args[1].args[0] in ('trunc', 'floor', 'ceil', 'round'):
        # a multiple of a whole number, rounded: at least the number when the multiple is
        q = q.args[1].args[1]
    C.ob(key, rule, ge(q, base), TRUE, facts=facts + [ge(base, ZERO)], res=r, nan=False)

def signed(t):
    """absolute values written out"""
    t = T.dropnan(t)
    return T.dropnan(subst(t, {q: ite(lt(q.args[1], ZERO), neg(q.args[1]), q.args[1]) for q in find(t, lambda q: q.op == 'app' and q.args[0] == 'abs')}))
def spans(C, key, rule, t, lo, hi, big, r):
    ext = hi if big else lo
    if t.op == 'app' and t.args[0] == 'pow' and isnum(t.args[1]) and numval(t.args[1]) > 1:
        # 10^(log10(x) + c): compared as exponents
        m = {}
        for q in find(t.args[2], lambda q: q.op == 'app' and q.args[0] in ('log10', 'ln', 'log2')):
            if q.args[1] is lo: m[q] = sym('lglo', 'real')
            if q.args[1] is hi: m[q] = sym('lghi', 'real')
            if q.args[1] is ext: ext = m[q]
        t = subst(t.args[2], m)
    c = ge(t, ext) if big else le(t, ext)
    C.ob(key, rule, c, TRUE, facts=[le(lo, hi), le(sym('lglo', 'real'), sym('lghi', 'real'))], res=r, nan=False)
    return t

WORDS = {'abs(median)': ('median',), 'sigma': ('sigma', 'step'), 'axis_ratio': ('ratio',), 'mean_dimensions': ('mean',), 'sqrt_eigenvalues': ('distribution', 'eigen'), 'coord_axis_scales': ('coord',)}
def strs(t):
    return [q.args[1].lower() for q in find(t, lambda q: q.op == 'const' and q.kind == 'str' and q.args[0] == 's')]
def wrong(text, nm, others):
    """the text speaks of another series and not of this one"""
    has = lambda n: any(w in text for w in WORDS.get(n, ()))
    return not has(nm) and any(has(o) for o in others if o != nm)

def names(C, r, ps, found, see, K):
    """the caption of a panel and the legend of a series do not speak of another one"""
    caps = {}
    for nm, (p, ev, pt, g, m) in found.items():
        if p.axes is None: continue
        if nm in DIMS:
            c = find(p.axes.args[0], lambda q: q.op == 'app' and q.args[0] == 'ChartBuilder::caption')
            if len(c) == 1 and len(strs(c[0].args[2])) == 1:
                text = strs(c[0].args[2])[0]
                C.fact('caption.' + nm, 'the caption of a panel does not name another panel', not wrong(text, nm, DIMS) and caps.setdefault(text, p) is p, '%s %s' % (p.axes.fn, p.axes.span), got=text, want=WORDS[nm][0])
        for e in p.notes:
            root = e.args[0]
            while root.op == 'app' and 'SeriesAnno::' in root.args[0]: root = root.args[1]
            while root.op == 'fld': root = root.args[0]
            if root.op != 'app' or root.args[0] != 'ChartContext::draw_series': continue
            root = root.args[2]
            if not (root.op == 'app' and root.args[0] == 'LineSeries'): continue
            loops = {l.k: x for l in e.loops for x in [m.get(l.k)] if x is not None}
            if len(loops) < len(e.loops): continue
            if subst(see(root.args[1]), loops) is not pt: continue
            site = '%s %s' % (e.fn, e.span)
            if e.name.endswith('label'):
                text = subst(see(e.args[1]), loops)
                if nm in DIMS:
                    shown = find(text, lambda q: q.op == 'app' and q.args[0].startswith('fmt:'))
                    C.fact('label.' + nm, 'a dimension is named by its index in the legend', any(q.args[1] is K for q in shown if len(q.args) == 2), site, got=show(text)[:200], want='contains the index', undecided='label not understood' if not shown else None)
                elif text.op == 'const' and strs(text):
                    C.fact('label.' + nm, 'the legend of a series does not name another series', not wrong(strs(text)[0], nm, [o for o in WORDS if o not in DIMS]), site, got=show(text), want=WORDS.get(nm, (nm,))[0])
            else:
                x, y = sym('x', 'int'), sym('y', 'int')
                try: t = r.I.apply(e.args[1], [adt('tuple', 0, x, y)], State(), TRUE)
                except Exception: t = None
                if t is None or t.op != 'app' or len(t.args) < 3: continue
                a, b = subst(see(t.args[-1]), loops), subst(see(root.args[2]), loops)
                C.ob('color.' + nm, 'the legend shows the color of the series', a, b, res=r, site=site)

def included(C, nm, have, want, val, n, d, K, facts):
    """one of the sequences contains every value of the series"""
    opaque = False
    i = fresh('k', 'nat')
    for c in have:
        q = settle(c.args[2], lambda a: True if a.op == 'ge' and a.args[0] in (n, d) and a.args[1] is ONE else None)
        if q.op == 'chunks' and len(q.args) == 1 and q.args[0].args[0] is TRUE and q.args[0].args[1] == 's': q = q.args[0].args[2]
        if c.args[0] is not TRUE or c.args[1] != 's' or q.op != 'bind' or q.args[0] not in ('seq', 'fseq', 'flat'): opaque = True; continue
        bodies = T.open_bind(q, [i]); m = bind_parts(q)[3][0]
        if nm in DIMS:
            if q.args[0] != 'flat': continue
            b = bodies[0]
            if m is not d: continue
            j = fresh('k', 'nat')
            if b.op == 'chunks' and len(b.args) == 1 and b.args[0].args[0] is TRUE and b.args[0].args[1] == 's': b = b.args[0].args[2]
            for w in (T.seq(j, n, val[nm](i, j)), T.fseq(j, n, b_not(isnan(val[nm](i, j))), val[nm](i, j))):
                if compare(b, w, facts, True) is None: return True, False
        else:
            if q.args[0] == 'flat' or m is not n: continue
            w = T.open_bind(want, [i])
            g = bodies[0] if q.args[0] == 'fseq' else TRUE
            gw = w[0] if want.args[0] == 'fseq' else TRUE
            fx = facts + [lt(i, n), gw]
            if compare(bodies[-1], w[-1], fx, True) is None and compare(g, TRUE, fx, True) is None: return True, False
    return False, opaque
