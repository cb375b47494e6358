"""Effects (C22 files, C23 printing, C32 thread safety, C04 entropy and clock): who may call what, and under which condition"""
from core import *
from registry import prop, also
import effects, re
import s_cmaes as SC

def graph(C):
    g = C.cache.get('graph')
    if g is None: g = C.cache['graph'] = effects.Graph(C.db)
    C.analysed.setdefault('call graph', {'functions': sorted(g.edges), 'blocks': sum(len(b['blocks']) for b in g.info.values()), 'calls': sum(map(len, g.edges.values())) + sum(map(len, g.leaf.values())), 'loops': 0, 'unmodelled': {}})
    return g
def path(C, b): return C.db.bodies[b]['p']

def confined(C, key, rule, sites, allowed):
    """every site is reachable from the allowed public functions only"""
    g = graph(C)
    bad = []
    for c, q, sp, p in sites:
        others = {x for x in g.roots_of(p) if x not in allowed and (p in g.reach_avoiding(x, allowed))}
        private = not others and not (g.above(p) & set(allowed))
        if others: bad.append((q, sp, p, sorted(others)[:4]))
    C.fact(key, rule, not bad, bad[0][1] + ' ' + bad[0][2] if bad else '', got='; '.join('%s called in %s at %s, reachable from %s' % (q, p, sp, ', '.join(o)) for q, sp, p, o in bad[:4]), want='only %s' % ', '.join(sorted(allowed)))

# ---------------------------------------------------------------- C22
@prop('C22', 'call graph: file, network, process and environment operations are reachable only from Plot::save_to_file; its value graph writes the given path, guards directory creation and returns every error', technique='static analysis: call-graph reachability of effects and value graph of Plot::save_to_file', nofeat=True)
def c22_reach(C):
    g = graph(C)
    save = [path(C, C.fn('Plot', 'save_to_file'))] if C.plot else []
    for c, what in (('file', 'file system operations'), ('draw', 'drawing back ends (they write an image file)')):
        confined(C, 'reach.' + c, what + ' are reachable only from Plot::save_to_file', g.sites(c), save)
    for c, what in (('net', 'network'), ('process', 'process'), ('env', 'environment'), ('input', 'standard input'), ('thread', 'thread')):
        s = g.sites(c)
        C.fact('none.' + c, 'no %s operation is called anywhere in the library' % what, not s, s[0][2] + ' ' + s[0][3] if s else '', got='; '.join('%s at %s' % (x[1], x[2]) for x in s[:4]), want='none')

DRAWS = ('DrawingArea::fill', 'DrawingArea::present', 'ChartBuilder::build_cartesian_2d', 'MeshStyle::draw', 'ChartContext::draw_series', 'DrawingArea::draw', 'SeriesLabelStyle::draw')
MAKE = ('DirBuilder::create', 'fs::create_dir_all', 'create_dir_all', 'fs::create_dir', 'create_dir', 'std::fs::create_dir_all', 'std::fs::create_dir')
@also('C22')
def c22_save(C):
    if not C.plot: return
    r = C.run(C.fn('Plot', 'save_to_file')); a, p, dirs = r.a
    par = [t for t in find_all(r, lambda t: t.op == 'app' and t.args[0] == 'Path::parent')]
    calls = [e for e in r.events if e.kind == 'call']
    files = [e for e in calls if re.search(r'fs::|DirBuilder|File|OpenOptions', e.name)]
    back = [e for e in calls if re.search(r'BitMapBackend::', e.name)]
    if not back: raise Undecided('no drawing back end found in save_to_file')
    for e in back:
        C.fact('path', 'the image is written to the given path', len(e.args) and e.args[0] is p, r.body['p'], got=show(e.args[0])[:200] if e.args else '', want='the path argument')
    C.fact('one', 'one image is written', len(back) == 1, r.body['p'], got=len(back), want=1)
    for e in files:
        if e.name in MAKE:
            want = b_and(dirs, is_variant(par[0], OPT, 1)) if par else dirs
            # what an operation that is not told about the flag answers says nothing about it
            apps = list(find_all(r, lambda t: t.op == 'app'))
            blind = {t.args[0] for t in apps} - {t.args[0] for t in apps if any(isinstance(x, T.Node) and any(y is dirs for y in find(x, lambda y: y is dirs)) for x in t.args[1:])}
            C.ob('dirs.only', 'directories are created only when asked for', b_and(e.guard, b_not(dirs)), FALSE, res=r, free=tuple(blind))
            C.ob('dirs.asked', 'directories are created exactly when asked for and the path has a parent', e.guard, want, res=r)
            ok = any(x.op == 'fld' and x.args[0].op == 'app' and x.args[0].args[0] == 'Path::parent' and x.args[0].args[1] is p for x in e.args)
            C.fact('dirs.parent', 'the directory created is the parent of the given path', ok, r.body['p'], got=[show(x)[:120] for x in e.args], want='parent of the path argument')
            if e.name == 'DirBuilder::create':
                rec = [t for t in e.args[:1] if t.op == 'app' and t.args[0] in ('DirBuilder::recursive', 'post0:DirBuilder::recursive')]
                C.fact('dirs.recursive', 'all missing parent directories are created', bool(rec) and rec[0].args[2] is TRUE, r.body['p'], got=[show(x)[:120] for x in e.args[:1]], want='recursive(true)')
            elif e.name.endswith('create_dir'):
                C.fact('dirs.recursive', 'all missing parent directories are created', False, r.body['p'], got=e.name, want='create_dir_all')
        elif e.name not in ('DirBuilder::new', 'DirBuilder::recursive'):
            C.fact('files.' + e.name, 'no other file operation', False, r.body['p'], got=e.name, want='none')
    C.fact('dirs.made', 'directories can be created', any(e.name in MAKE for e in files), r.body['p'], got='no directory is ever created', want='created when asked for')
    pres = [e for e in calls if e.name == 'DrawingArea::present']
    C.fact('present', 'the image is written out', len(pres) >= 1, r.body['p'], got='present is not called', want='present')
    # every error is returned
    n = 0
    for e in calls:
        if e.loops or not (e.name in MAKE or e.name in DRAWS): continue
        t = result_of(C, r, e)
        if t is None: continue
        at = is_variant(t, RES, 1)
        if at in (TRUE, FALSE): continue
        n += 1
        ret, grd = r.ret, e.guard
        if e.name in DRAWS:
            # when this operation alone fails
            it = atom(at)
            alone = lambda q: (q.args[2] == 0) if q.op == 'is' and q.args[1] == RES and q is not it else None
            # what is left of the tests on results is about this one
            left = lambda q: (q.args[2] == 1) if q.op == 'is' and q.args[1] == RES else None
            ret, g = settle(settle(ret, alone), left), settle(settle(grd, alone), left)
        else:
            ret = restrict(ret, {atom(at): truth(at)})
            g = restrict(grd, {atom(at): truth(at)})
        C.ob('error.%d.%s' % (n, e.name), 'a failure is returned to the caller', is_variant(ret, RES, 1), TRUE, facts=[g], res=None, site=r.body['p'], given=[e.guard])
    for e in r.ev('panic'):
        bad = [t for t in atoms_of(e.guard) if t.op == 'is' and t.args[1] == RES and restrict(e.guard, {t: False}) is FALSE]
        C.fact('panic.%s' % e.span if hasattr(e, 'span') else 'panic', 'no failed drawing or file operation panics', not bad, '%s %s' % (r.body['p'], getattr(e, 'span', '')), got='panics when %s' % ', '.join(show(b)[:120] for b in bad[:2]), want='the error is returned')
def settle(t, f):
    """the value when every test f decides has that outcome"""
    asg = {}
    def see(a):
        if a.op in ('is', 'ge', 'lt', 'eq', 'un') and a not in asg:
            v = f(a)
            if v is not None: asg[a] = v
        return False
    find(t, see)
    return restrict(t, asg) if asg else t
def atom(t): return t.args[0] if t.op == 'ite' else t
def truth(t): return not (t.op == 'ite' and t.args[1] is FALSE)
def find_all(r, pred):
    out = []
    for e in r.events:
        for x in list(e.args) + [e.guard]: out += find(x, pred)
    return sorted(set(out), key=lambda t: t.id)
def result_of(C, r, e):
    """the Result value of a recorded opaque call, if it occurs anywhere"""
    c = C.cache.setdefault(('resatoms', r.body['p']), None)
    if c is None:
        c = {}
        terms = [r.ret] + [x.guard for x in r.events]
        for t in terms:
            for at in atoms_of(t):
                if at.op == 'is' and at.args[1] == RES and at.args[0].op == 'app': c.setdefault((at.args[0].args[0], at.args[0].args[1:]), at.args[0])
        C.cache[('resatoms', r.body['p'])] = c
    return c.get((e.name, tuple(e.args)))

@also('C22')
def c22_used(C):
    """no Result is dropped, ignored or turned into something else in the functions that save a plot"""
    if not C.plot: return
    g = graph(C)
    cone = g.below(path(C, C.fn('Plot', 'save_to_file')))
    n = 0; bad = []
    for b in C.db.bodies:
        if b is None or b['crate'] != 'cmaes' or b['p'] not in cone: continue
        for bl in b['blocks']:
            t = bl['t']
            if t[0] != 'call': continue
            d = t[3]
            if d['p']: continue
            ty = C.db.ty(b['locals'][d['l']][0])
            if ty['k'] != 'adt' or ty['path'] != RES: continue
            err = C.db.ty(ty['args'][1])
            s = err.get('s', '')
            if not re.search(r'DrawingAreaErrorKind|io::(error::)?Error|PlotError', s): continue
            n += 1
            fn = (t[1].get('k') or {}).get('fn') or {}
            u = uses(b, d['l'])
            if d['l'] == 0: continue
            how = [x for x in u if x]
            if not how: bad.append(('result ignored', fn.get('p'), t[5], b['p']))
            for q in how:
                if re.search(r'result::\{impl#\d+\}::(ok|unwrap|expect|unwrap_or|unwrap_or_default|unwrap_or_else|unwrap_or_default)$', q): bad.append((q, fn.get('p'), t[5], b['p']))
    C.fact('errors.used', 'every Result of a drawing or file operation is returned or matched on, in each of the %d places' % n, not bad, bad[0][3] if bad else '', got='; '.join('%s of %s at %s' % x[:3] for x in bad[:3]), want='returned', undecided=None if n else 'no drawing call found')
def uses(b, l):
    """how a local is used: callee paths, '=' for moves and matches"""
    out = []
    def has(x):
        if isinstance(x, dict):
            if 'l' in x and 'p' in x: return x['l'] == l
            return any(has(v) for v in x.values())
        if isinstance(x, list): return any(has(v) for v in x)
        return False
    for bl in b['blocks']:
        for s in bl['s']:
            if s[0] == '=' and has(s[2]): out.append('=')
        t = bl['t']
        if t[0] == 'call' and any(has(a) for a in t[2]):
            fn = (t[1].get('k') or {}).get('fn') or {}
            out.append(fn.get('p', '?'))
        elif t[0] == 'switch' and has(t[1]): out.append('=')
    return out

# ---------------------------------------------------------------- C23
@prop('C23', 'value graph of a step, a run and of construction: every print is guarded by the configured gap; call graph: no other part prints', technique='static analysis: value graph with recorded print operations and call-graph reachability', nofeat=True)
def c23_steps(C): SC.o_print(C)
@also('C23')
def c23_quiet(C):
    g = graph(C)
    sites = {s[3] for s in g.sites('print')}
    for ty, nm, sig in (('Sampler', 'sample', ('&mut Sampler<F>', '&State', 'Mode', 'bool')), ('Sampler', 'sample_parallel', ('&mut Sampler<F>', '&State', 'Mode', 'bool')),
                        ('History', 'update', None), ('State', 'update', None), ('TerminationCheck', 'check_termination_criteria', None)) + ((('Plot', 'add_data_point', None), ('Plot', 'save_to_file', None)) if C.plot else ()):
        p = path(C, C.fn(ty, nm, sig=sig)); hit = sorted(g.below(p) & sites)
        C.fact('quiet.%s.%s' % (ty, nm), 'never prints', not hit, hit[0] if hit else p, got='prints in %s' % ', '.join(hit), want='nothing')
    for e in sorted({s[2] for s in g.sites('print') if 'eprint' in s[1]}):
        C.fact('stderr.' + e, 'nothing is written to standard error', False, e, got=e, want='none')
def printing(r): return [e for e in r.events if re.search(r'_e?print$|stdio::', e.name or '')]
@also('C23')
def c23_guard(C):
    """direct prints in steps, runs and construction"""
    n = 0
    rs = [(SC.NEXT[p], SC.step(C, p), lambda r: C.F(r.a[0], 'print_gap_evals')) for p in SC.PARS]
    rs += [(SC.RUN[p], SC.runs(C, p)[0], None) for p in SC.PARS]
    for nm, r, gap in rs:
        ev = printing(r)
        bad = []
        for e in ev:
            g = gap(r) if gap else None
            if g is None: bad.append(e); continue
            if compare(b_and(e.guard, b_not(is_variant(g, OPT, 1))), FALSE) is not None: bad.append(e)
        C.fact('guard.' + nm, 'no print outside the configured printing', not bad, r.body['p'], got=', '.join('%s in %s' % (e.name, e.fn if hasattr(e, 'fn') else '') for e in bad[:3]), want='printing only through the status lines')

@also('C23')
def c23_new(C):
    """construction and restarts"""
    import s_params as SP, s_restart as SR
    r = SP.built(C)
    given = is_variant(C.F(r.a[1], 'print_gap_evals'), OPT, 1)
    C.ob('guard.CMAES.new', 'construction prints only when printing is enabled', b_and(b_or(*[e.guard for e in printing(r)]), b_not(given)), FALSE, res=r)
    C.ob('guard.CMAES.new.initial', 'and then it does', b_or(*[e.guard for e in printing(r)]), b_and(given, is_variant(r.ret, RES, 0)), facts=[is_variant(r.ret, RES, 0)], res=r)
    r = SR.restart(C); on = C.F(r.a[0], 'print_info')
    ev = printing(r) + [e for e in r.events if e.kind == 'call' and e.name in ('print_initial_info', 'print_run_info', 'print_run_results', 'print_results')]
    for nm in sorted({e.name for e in ev}):
        C.ob('guard.Restarter.run.' + nm, 'a restarter prints only when printing is enabled', b_and(b_or(*[e.guard for e in ev if e.name == nm]), b_not(boolterm(on))), FALSE, res=r, free=('loop', 'fold', 'apply'))

@also('C23')
def c23_total(C):
    """the status lines themselves, whatever has been found so far (their panics are judged with those of all analysed functions)"""
    for ty, nm in (('CMAES', 'print_initial_info'), ('CMAES', 'print_info'), ('CMAES', 'print_final_info'), ('RestartResults', 'print_results'), ('Restarter', 'print_initial_info'), (None, 'print_run_info'), (None, 'print_run_results')):
        try: r = C.run(C.fn(ty, nm))
        except Undecided as e: C.undecided('lines.%s' % nm, 'the status lines can be analysed', e); continue
        C.fact('lines.%s' % nm, 'operations inspected: %d' % len(r.events), True, r.body['p'])

# ---------------------------------------------------------------- C32
SENDABLE = ['History', 'Mode', 'Weights', 'Parameters', 'State', 'Individual', 'EvaluatedPoint', 'TerminationData', 'TerminationReason', 'InvalidOptionsError', 'Bounds', 'Scale',
            'RestartResults', 'RestartTerminationReason', 'RestartStrategy', 'BIPOP', 'IPOP', 'Local', 'InvalidRestartOptionsError', 'InvalidRestartStrategyOptionsError', 'TerminationParameters']
SHARED = ['CMAES', 'CMAESOptions', 'Sampler', 'RestartOptions', 'Restarter']
@prop('C32', 'item scan of the type-checked crate: no unsafe code, no static or thread-local state that can change, no manual Send or Sync, and the auto traits the types have', technique='static analysis: scan of the items, unsafe blocks and auto traits of the type-checked crate', nofeat=True, assume=['auto traits are computed by rustc with every type parameter assumed to have the trait'])
def c32(C):
    db = C.db
    C.fact('unsafe.blocks', 'no unsafe block', db.unsafe_blocks == 0, '', got='%d unsafe blocks' % db.unsafe_blocks, want=0)
    bad = sorted({b['p'] for b in db.bodies if b is not None and b['crate'] == 'cmaes' and b.get('unsafe')})
    C.fact('unsafe.fns', 'no unsafe function', not bad, bad[0] if bad else '', got=bad[:3], want='none')
    for i in db.items:
        if 'static' in i:
            ok = i['mut'] in (0, '0') and str(i.get('freeze', 1)) == '1' and str(i.get('local', 0)) == '0'
            C.fact('static.' + i['static'], 'static items never change', ok, i.get('span', ''), got='static %s: %s%s' % (i['static'], i.get('ty'), ' (thread local)' if str(i.get('local')) == '1' else ''), want='no interior mutability')
    bad = [i for i in db.items if 'impl' in i and i['unsafe'] and i['trait'] != 'core::clone::TrivialClone']
    C.fact('unsafe.impls', 'no unsafe trait implementation (manual Send or Sync)', not bad, bad[0]['span'] if bad else '', got=['%s for %s' % (i['trait'], db.ty(i['impl'])['s']) for i in bad[:3]], want='none')
    tl = [t['s'] for t in db.types if t.get('path') == 'std::thread::local::LocalKey']
    C.fact('thread.local', 'no thread-local state', not tl, '', got=tl[:2], want='none')
    for i in db.items:
        if 'adt' not in i: continue
        t = db.ty(i['adt']); nm = t['path'].split('::')[-1]
        if nm in SENDABLE or nm in ('Plot', 'PlotOptions', 'PlotData', 'PlotError'):
            C.fact('send.' + nm, 'can be moved to and shared with another thread', i.get('send') and i.get('sync'), i.get('span', ''), got='Send %s, Sync %s' % (i.get('send'), i.get('sync')), want='both')
        elif nm in SHARED:
            C.fact('sync.' + nm, 'can be shared with another thread', bool(i.get('sync')), i.get('span', ''), got='Sync %s' % i.get('sync'), want='Sync')
    for i in db.items:
        if i.get('trait') in ('cmaes::objective_function::ParallelObjectiveFunction', 'cmaes::sampling::Constraints') and 'methods' in i:
            ok = any('Sync' in s for s in i['super'])
            C.fact('bound.' + i['trait'].split('::')[-1], 'used from several threads, so Sync is required of it', ok, i['trait'], got=i['super'], want='Sync')
