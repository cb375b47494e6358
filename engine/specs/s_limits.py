"""C33: integer arithmetic on user-supplied limits and gaps"""
from core import *
from registry import prop, also
import s_cmaes as SC, s_params as SP, s_restart as SR, s_sampling as SS

LIM = {'min_gap_evals', 'print_gap_evals', 'max_function_evals', 'max_generations', 'max_runs', 'max_resamples', 'max_time', 'max_function_evals_per_run', 'max_generations_per_run', 'tol_stagnation'}

def limit_atom(t):
    """a limit field, possibly the payload of an optional one"""
    if t.op == 'fld' and t.args[2] == '0': t = t.args[0]
    return t.op == 'fld' and t.args[2] in LIM
def field_of(t): return t.args[0].args[2] if t.args[2] == '0' else t.args[2]
def summands(t, g=TRUE):
    """(guard, limit atom) for every limit that occurs additively or multiplicatively in a value"""
    if t.op == 'ite':
        c = T._atomvar(t.args[0])
        yield from summands(t.args[1], b_and(g, c)); yield from summands(t.args[2], b_and(g, b_not(c)))
    elif t.op == 'poly':
        for m, c in t.args:
            for a, e in m: yield from summands(a, g)
    elif limit_atom(t): yield g, t
def comparisons(g):
    """the inequality atoms of a condition"""
    out = set(); st = [g]; seen = set()
    while st:
        x = st.pop()
        if x in seen or x.op != 'ite': continue
        seen.add(x); out.add(x.args[0]); st += x.args[1:]
    return out
def related(g, L): return any(find(a, lambda t: t is L) for a in comparisons(g))

def jumps(d, L):
    """does the difference involve a count that can step over the limit (evaluations, time)?"""
    for m, c in (d.args if d.op == 'poly' else ()):
        for a, e in m:
            if a is L: continue
            if a.op == 'sym' and a.args[0].startswith('mu'): return True
            x = a
            while x.op == 'fld':
                if 'eval' in x.args[2]: return True
                x = x.args[0]
            if a.op == 'app' and a.args[0] in ('elapsed', 'now'): return True
    return False
def records(C, name, r):
    n = 0
    for op, a, b, pc, site, nonneg in r.I.arith:
        n += 1
        hits = [(g, L) for x in (a, b) for g, L in summands(x, pc)]
        key = '%s.%s' % (name, site.split('::')[-1])
        for g, L in hits:
            if op == 'Sub' and (nonneg or isnum(a)): continue
            below = op == 'Sub' and isnum(b)          # a limit of zero, minus something
            if below and (numval(b) <= 0 or field_of(L) == 'max_runs'): continue
            if related(g, L): C.undecided(key, 'arithmetic on a limit is bounded', '%s of %s and %s, under a comparison of the limit' % (op, show(a)[:80], show(b)[:80])); continue
            if op == 'Sub' and not below and not jumps(sub(a, b), L): C.undecided(key, 'arithmetic on a limit is bounded', 'difference of %s and %s: the count may be known to stay below the limit' % (show(a)[:80], show(b)[:80])); continue
            C.fact(key, 'no unchecked integer arithmetic on a user-supplied limit or gap', False, site or r.body['p'], got='%s of %s and %s' % ({'Add': 'sum', 'Sub': 'difference', 'Mul': 'product'}.get(op, op), show(a)[:120], show(b)[:120]), want='a comparison, or saturating arithmetic')
            break
    C.fact('%s.arithmetic' % name, 'integer operations inspected: %d' % n, True, r.body['p'])
    return set(r.stats['functions'])

@prop('C33', 'operand inspection: every integer addition, subtraction and multiplication reached from the entry points, on the values that reach it across calls; a limit field reaching one unbounded is reported', nofeat=True,
      technique='static analysis: value-flow (gated value graph) of user-supplied limit fields into the operands of overflow-checked integer operations', assume=['running counts themselves do not overflow'])
def c33(C):
    done = set()
    jobs = []
    for par in SC.PARS:
        jobs.append(('step%d' % par, lambda par=par: SC.step(C, par))); jobs.append(('run%d' % par, lambda par=par: SC.runs(C, par)[0]))
    jobs += [('new', lambda: SP.built(C)), ('restart', lambda: SR.restart(C))]
    jobs += [(n, lambda n=n: SR.strategy(C, n)) for n in SR.SN]
    jobs += [(n, lambda n=n: SS.sample(C, n)) for n in ('sample', 'sample_parallel')]
    jobs.append(('criteria', lambda: C.run(C.fn('TerminationCheck', 'check_termination_criteria'))))
    for name, job in jobs:
        try: done |= records(C, name, job())
        except Undecided as e: C.undecided(name + '.arithmetic', 'integer operations inspected', e)
    big = []
    for a in (('CMAES', 'new'), ('Sampler', 'sample'), ('Sampler', 'sample_parallel'), ('State', 'update'), ('History', 'update'), ('CMAES', 'run'), ('CMAES', 'run_parallel'), ('CMAES', 'next'), ('CMAES', 'next_parallel'), ('Restarter', 'run_internal')):
        try: big.append(C.bar(a[0], a[1], a[1]).handler())
        except Undecided: pass
    for bid in C.db.roots:
        b = C.db.bodies[bid]
        if b['p'] in done or '::tests::' in b['p'] or not any(C.db.ty(l[0])['k'] in ('uint', 'int', 'ref', 'adt') for l in b['locals'][1:b['argc'] + 1]): continue
        if any(h.path == b['p'] for h in big): continue
        try: done |= records(C, b['p'], C.run(bid, barriers=big, limit=10))
        except Undecided as e: pass
