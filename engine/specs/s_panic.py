"""C37: no function of the library panics, except the simple helpers for what they document"""
from core import *
from registry import prop, also
import s_effects as SE, s_cmaes as SC, s_params as SP, s_restart as SR, s_objective as SO

# fmin and its siblings document their panics (decided exactly by C31); drawing and saving are decided by C36 and C22
DOCUMENTED = set(SO.HELP)

@prop('C37', 'every function of the crate, generic or not, called with arbitrary arguments: the condition under which a call that never returns is reached (unwrap, expect, panic!, assert!, unreachable!, a zero divisor, an index into a history, through the library calls that contain them) must be false', nofeat=True,
      technique='static analysis: value graph of every function; path conditions of diverging calls', assume=['a generation has at least one individual and the dimension is at least one', 'a run a restart strategy builds from validated options is accepted', 'the objective function itself does not panic', 'integer overflow is C33\'s subject; indices are judged in sequences of the history only', 'no value is NaN except where C08, C09 and C29 say so'])
def c37(C):
    for par in SC.PARS: SC.step(C, par); SC.runs(C, par)
    for job in (lambda: SP.built(C), lambda: SR.restart(C)):
        try: job()
        except Undecided as e: C.undecided('panic', 'the function can be analysed', e)
    big = []
    for a in (('CMAES', 'new'), ('Sampler', 'sample'), ('Sampler', 'sample_parallel'), ('State', 'update'), ('History', 'update'), ('CMAES', 'run'), ('CMAES', 'run_parallel'), ('CMAES', 'next'), ('CMAES', 'next_parallel'), ('Restarter', 'run_internal')):
        try: big.append(C.bar(a[0], a[1], 'cmaes_new' if a == ('CMAES', 'new') else a[1]).handler())
        except Undecided: pass
    own = {r.body['p'] for r in C.runs}
    skip = 0; g = SE.graph(C); cut = {p for r in C.runs for p in r.I.barriers}      # summarised by their callers: judged for themselves
    for bid in C.db.roots:
        b = C.db.bodies[bid]
        if b['p'] in own or '::tests::' in b['p'] or b['p'].split('::')[-1] in DOCUMENTED or '::plotting::{impl#0}::' in b['p'] and b['p'].split('::')[-1] in ('save_to_file', 'build_plot') or '::draw::' in b['p']: continue
        try:
            r = C.run(bid, barriers=[h for h in big if h.path != b['p']], limit=20)
            r.helper = not b['reach'] and b['p'] not in cut and any(b['p'] in es for q, es in g.edges.items() if q != b['p'] and '::tests::' not in q)
        except Undecided as e: skip += 1; C.undecided('panic.' + b['p'], 'the function can be analysed', e)

SPECIAL = {'NaN': dict(isnan=1, is_finite=0, is_infinite=0, is_normal=0, is_subnormal=0, is_pinf=0, is_ninf=0),
           'infinity': dict(isnan=0, is_finite=0, is_infinite=1, is_normal=0, is_subnormal=0, is_pinf=1, is_ninf=0),
           'negative infinity': dict(isnan=0, is_finite=0, is_infinite=1, is_normal=0, is_subnormal=0, is_pinf=0, is_ninf=1)}
def of(t, x):
    """x or its absolute value"""
    if t is x: return 1
    if t.op == 'app' and t.args[0] == 'abs' and t.args[1] is x: return 2
    return 0
@also('C23', 'C37')
def c37_special(C):
    """a special value is never taken apart as if it were a number with an exponent"""
    r = C.run(C.fn(None, 'format_num')); x = r.a[0]
    for e in r.events:
        if e.kind != 'panic' or e.guard is FALSE: continue
        for nm, cls in SPECIAL.items():
            asg = {}; open_ = []
            for a in atoms_of(e.guard):
                if a.op == 'un' and of(a.args[0], x): asg[a] = bool(cls['isnan'])
                elif a.op == 'app' and a.args[0] in cls and of(a.args[1], x):
                    k = a.args[0]
                    if of(a.args[1], x) == 2 and k in ('is_pinf', 'is_ninf'): asg[a] = k == 'is_pinf' and bool(cls['is_infinite'])
                    else: asg[a] = bool(cls[k])
                elif a.op not in ('is',) and find(a, lambda t: t is x): open_.append(a)
            g = restrict(e.guard, asg) if asg else e.guard
            left = [a for a in atoms_of(g) if a in open_]
            C.fact('special.%s' % nm, 'no panic at %s %s for %s' % (e.fn, e.span.split('/')[-1], nm), g is FALSE, r.body['p'], got=show(g)[:300], want='false', undecided='depends on ' + show(left[0])[:80] if left else None)
