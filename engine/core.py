"""Obligations: terms extracted from the source compared with specification terms."""
import json, os, sys, time, signal, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import models
import terms as T
import interp as IP
from interp import *
from models import select, m_norm, m_dot, vec_of, mapm, mapidx, midx, cmul

class Undecided(Exception): pass
class Timeout(Exception): pass
def _alarm(*a): raise Timeout('analysis time limit')

class Res:
    """one analysed function: result, final contents of mutable arguments, recorded effects"""
    def __init__(self, I, st, args, ret, body, names):
        self.I = I; self.st = st; self.a = args; self.ret = ret; self.body = body
        self.events = I.events; self.names = names
    def post(self, i=0):
        return self.I.deep(self.st, self.st.get(('A', i)))
    def ev(self, kind, name=None):
        return [e for e in self.events if e.kind == kind and (name is None or e.name == name)]

def shortty(s):
    import re
    s = re.sub(r'nalgebra::base::matrix::Matrix<f64, nalgebra::base::dimension::Dyn, nalgebra::base::dimension::Const<1>, [^>]*<[^>]*<[^>]*>>>', 'Vector', s)
    s = re.sub(r'nalgebra::base::matrix::Matrix<f64, nalgebra::base::dimension::Dyn, nalgebra::base::dimension::Dyn, [^>]*>>', 'Square', s)
    return re.sub(r'(\w+::)+', '', s)

class Ctx:
    pid = None; invariants = ()
    def __init__(self, dump, label=''):
        self.db = DB(dump)
        self.label = label
        self.tpath = {}
        for i, t in enumerate(self.db.types):
            if t.get('k') == 'adt' and 'variants' in t:
                self.tpath.setdefault(t['path'].split('::')[-1], t['path']) if not t['path'].startswith('cmaes::') else None
        for i, t in enumerate(self.db.types):
            if t.get('k') == 'adt' and 'variants' in t and t['path'].startswith('cmaes::'):
                self.tpath[t['path'].split('::')[-1]] = t['path']
        self.tvar = {}
        self.tyid = {}
        for i, t in enumerate(self.db.types):
            if t.get('k') == 'adt' and 'variants' in t:
                self.tvar[t['path']] = t
                self.tyid.setdefault(t['path'], i)
        self.obs = []          # obligation records
        self.analysed = {}     # body path -> stats
        self.runs = []         # functions the current property has analysed
        self.cache = Cache(); self.cache.owner = self

    # ---------------------------------------------------------------- resolving anchors
    def short(self, b):
        if b.get('selfty') is None: return None
        t = self.db.ty(self.db.strip(b['selfty']))
        return t['path'].split('::')[-1] if t['k'] == 'adt' else t['k']
    def fn(self, selfty, name, trait=None, pick=None, sig=None):
        """body id of a function: free (selfty None) or method, by name, else by unique signature"""
        c = []; fall = []
        for bid in self.db.roots:
            b = self.db.bodies[bid]
            if self.short(b) != selfty: continue
            it = b.get('itrait')
            if (it.split('::')[-1] if it else None) != trait: continue
            if pick is not None and not pick(self.db, b): continue
            if b['n'] == name: c.append(bid)
            elif sig is not None and self.sig(b) == sig: fall.append(bid)
        if len(c) == 1:
            if sig is not None and self.sig(self.db.bodies[c[0]]) != sig:
                raise Undecided('the signature of %s::%s is %s' % (selfty, name, self.sig(self.db.bodies[c[0]])))
            return c[0]
        if not c and len(fall) == 1: return fall[0]
        raise Undecided('no unique function %s::%s%s' % (selfty, name, ' (%s)' % trait if trait else ''))
    def sig(self, b):
        out = []
        for i in range(b['argc']):
            t = self.db.ty(b['locals'][i + 1][0])
            out.append(shortty(t['s']))
        return tuple(out)
    def T(self, name):
        p = self.tpath.get(name)
        if p is None: raise Undecided('type %s not found' % name)
        return p

    # ---------------------------------------------------------------- analysis
    def run(self, bid, args=None, barriers=None, facts=(), limit=60, setup=None, key=None):
        """args: optional {index: value or (base -> value)}; argument symbols are a0, a1, ..."""
        b = self.db.bodies[bid]
        bars = {}
        for h in (barriers or []):
            bars[h.path] = h
        I = Interp(self.db, bars)
        st = State(); vals = []; base = []
        for i in range(b['argc']):
            ty = b['locals'][i + 1][0]
            t = self.db.ty(ty)
            s = sym('%s#a%d' % (b['p'], i), self.db.kind(ty), self.db.strip(ty))
            if args and i in args and args[i] is not None:
                s = args[i](s) if callable(args[i]) and not isinstance(args[i], T.Node) else args[i]
            if s.kind == 'bool': s = boolterm(s)
            base.append(s)
            if t['k'] == 'ref' and t['mut']:
                st.set(('A', i), s); vals.append(I.mkref([(TRUE, ('A', i), ())]))
            else:
                st.set(('A', i), s)
                vals.append(s)
        for f in facts:
            f = f(base) if callable(f) else f
            assume_nonneg(f)
        if setup: setup(I, st, base, vals)
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            try:
                r = I.run_body(bid, vals, st, TRUE)
                r = I.deep(st, r)
            finally:
                signal.alarm(0); signal.signal(signal.SIGALRM, old)
        except Unmodelled as e:
            raise Undecided('%s: construct outside the analysed language: %s' % (b['p'], e))
        except Timeout:
            raise Undecided('%s: analysis time limit' % b['p'])
        except (Budget, RecursionError) as e:
            raise Undecided('%s: analysis budget: %r' % (b['p'], e))
        except (ZeroDivisionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            if os.environ.get('VDEBUG'): raise
            raise Undecided('%s: analysis failed: %r' % (b['p'], e))
        self.analysed[b['p']] = {'functions': sorted(I.stats['fns']), 'blocks': I.stats['blocks'], 'calls': I.stats['calls'],
                                 'loops': I.stats['loops'], 'unmodelled': dict(I.unmodelled)}
        R = Res(I, st, base, r, b, None)
        self.runs.append(R)
        R.stats = self.analysed[b['p']]
        return R

    # ---------------------------------------------------------------- specification vocabulary
    def vi(self, path, variant):
        t = self.tvar[path]
        for i, v in enumerate(t['variants']):
            if v['n'] == variant: return i
        raise Undecided('variant %s::%s not found' % (path, variant))
    def F(self, x, names):
        """field access by name (dotted)"""
        for nm in names.split('.'):
            x = self._f(x, nm)
        return x
    def _f(self, x, nm):
        if x.op == 'ite': return map_leaves(x, lambda l: self._f(l, nm))
        if x is BOT: return BOT
        if x.op == 'adt' and isinstance(x.args[0], str) and x.args[0] in self.tvar:
            path = x.args[0]; var = x.args[1]
        elif x.op == 'adt' and x.args[0] == 'tuple':
            return field(x, (0, int(nm)), nm)
        else:
            ty = x.ty
            t = self.db.ty(self.db.strip(ty)) if isinstance(ty, int) else None
            if t is None: raise Undecided('field %s of an untyped value %s' % (nm, show(x)[:80]))
            if t['k'] == 'tuple':
                a = t['args'][int(nm)]
                return field(x, (0, int(nm)), nm, self.db.kind(a), self.db.strip(a))
            if t['k'] != 'adt' or 'variants' not in t: raise Undecided('field %s of %s' % (nm, t['s']))
            path = t['path']; var = 0
        t = self.tvar[path]
        if x.op != 'adt': t = self.db.ty(self.db.strip(x.ty))
        for i, f in enumerate(t['variants'][var]['f']):
            if f['n'] == nm:
                return field(x, (var, i), nm, self.db.kind(f['t']), self.db.strip(f['t']))
        raise Undecided('field %s not found in %s' % (nm, path))
    def payload(self, x, var, i=0, kind=None, ty=None):
        """payload of an enum variant by index (Option: Some is 1; Result: Ok 0, Err 1)"""
        def f(l):
            if l is BOT: return BOT
            k, y = kind, ty
            if k is None:
                if l.op == 'adt': return field(l, (var, i), str(i))
                t = self.db.ty(self.db.strip(l.ty))
                ft = t['variants'][var]['f'][i]['t']
                k = self.db.kind(ft); y = self.db.strip(ft)
            return field(l, (var, i), str(i), k, y)
        return map_leaves(x, f)
    def some(self, x): return self.payload(x, 1)
    def struct(self, name, base=None, **kw):
        p = self.T(name); t = self.tvar[p]
        fs = []
        used = set()
        for i, f in enumerate(t['variants'][0]['f']):
            if f['n'] in kw: fs.append(kw[f['n']]); used.add(f['n'])
            elif base is not None: fs.append(self._f(base, f['n']))
            else: raise Undecided('field %s of %s has no specified value' % (f['n'], name))
        miss = set(kw) - used
        if miss: raise Undecided('fields %s not found in %s' % (sorted(miss), name))
        return adt(p, 0, *fs, ty=self.tyid[p])
    def enum(self, name, variant, *fields):
        p = self.T(name)
        return adt(p, self.vi(p, variant), *fields, ty=self.tyid[p])
    def isv(self, x, name, variant):
        p = self.T(name)
        return is_variant(x, p, self.vi(p, variant))
    def fields(self, name):
        return [f['n'] for f in self.tvar[self.T(name)]['variants'][0]['f']]

    # ---------------------------------------------------------------- barriers (modular summaries)
    def barrier(self, bid, label=None, effect=True, handler=None):
        b = self.db.bodies[bid]
        lab = label or b['n']
        def h(I, f, args, st, pc, dty, atys):
            if handler is not None: return handler(I, f, args, st, pc, dty, atys)
            return I.opaque(lab, f, args, st, pc, dty, atys, label=lab)
        h.path = b['p']
        return h

    # ---------------------------------------------------------------- obligations
    def panics(self, runs=None, nan=False, facts=(), nonempty=True, free=()):
        """none of the analysed functions panics; the exceptions are conditions of the library's own making"""
        seen = set(); left = {}; open_ = set()
        if runs is None: runs = [r for r in self.runs if not getattr(r, 'judged', 0)]
        if runs: self.fact('panic.sites', 'functions inspected for panics: %d, conditions met: %d' % (len(runs), sum(e.kind == 'panic' and e.guard is not FALSE for r in runs for e in r.events)), True)
        # a helper of the crate's own may require something of its arguments: its panics count unless every caller rules them out
        for r in sorted(runs, key=lambda r: getattr(r, 'helper', 0)):
            for e in r.events:
                if getattr(r, 'helper', 0) and e.own not in open_: continue
                if e.kind not in ('panic', 'assert') or e.guard is FALSE: continue
                k = (e.fn, e.span, e.guard)
                if k in seen: continue
                seen.add(k)
                fs = list(facts)
                if e.kind == 'assert' and not self.sizes(e, fs): continue
                for t in find_all(e.guard, lambda t: t.op == 'app'):
                    if t.args[0] in ('len', 'nrows', 'ncols') and nonempty and owned(self.db, t.args[1]): fs.append(ge(t, ONE if t.args[1].kind == 'mat' else num(2)))
                    elif t.args[0] == 'cmaes_new' and t.kind not in NUM: fs.append(self.isv(t, 'Result', 'Ok'))
                o = self.ob('panic', 'no panic at %s %s' % (e.fn, e.span), e.guard, FALSE, fs, nan=nan, res=r, free=free)
                if o['status'] != 'discharged': open_.add(e.own)
                if o['status'] == 'undecided':     # one record per function and reason
                    first = left.setdefault((o['site'], o['why']), o)
                    if first is not o: self.obs.remove(o); first['rule'] = first['rule'].split(' and others')[0] + ' and others'
    def positive(self, *ts):
        """the sizes every set of parameters has"""
        out = []
        for t in ts:
            for x in find_all(t, lambda t: t.op == 'fld' and t.kind in ('nat', 'int') and t.args[2] in ('dim', 'lambda', 'mu')):
                i = x.args[0].ty
                if isinstance(i, int) and self.db.ty(self.db.strip(i)).get('path', '').split('::')[-1] == 'Parameters' and ge(x, ONE) not in out: out.append(ge(x, ONE))
        return out
    def sizes(self, e, fs):
        """checked indices and divisors are judged where the library cannot know the size: the sequences of a history, empty until the first update, and divisors;
        how the lengths of different containers relate is not followed"""
        def base(t):
            i = t.args[0].ty
            i = self.db.strip(i) if isinstance(i, int) else None
            return self.db.ty(i).get('path', '').split('::')[-1] if i is not None else ''
        ps = self.positive(e.guard); fs += ps
        for t in find_all(e.guard, lambda t: t.op == 'app' and t.args[0] == 'idiv'):
            fs.append(b_or(le(t.args[1], ZERO), lt(t, t.args[1])))
        if e.name != 'index' and 'Discriminant(0)' not in e.name: return True
        lens = find_all(e.guard, lambda t: t.op == 'app' and t.args[0] in ('len', 'nrows', 'ncols'))
        if len(lens) != 1 or ps: return False
        x = lens[0].args[1]
        return x.op == 'fld' and base(x) == 'History' and '::termination::' not in e.own      # the criteria are checked after an update
    def ob(self, key, rule, actual, spec, facts=(), nan=None, res=None, site=None, alt=None, unmod=(), limit=20000, free=(), given=()):
        """actual must equal spec in every case allowed by facts"""
        facts = list(facts) + list(self.invariants)
        # formulas over parameters and matrices are about ordinary numbers
        if nan is None: nan = self.pid not in ('C11', 'C12', 'C13', 'C14')
        rec = {'key': key, 'rule': rule, 'status': None, 'site': site or (res.body['p'] if res is not None else '')}
        self.obs.append(rec)
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(60)
        try:
            try:
                r = compare(actual, spec, facts, nan, limit)
                if r is not None and (given_sizes := self.positive(actual, spec)): facts += given_sizes; r = compare(actual, spec, facts, nan, limit)
            finally:
                signal.alarm(0); signal.signal(signal.SIGALRM, old)
        except (Budget, Timeout, RecursionError, ZeroDivisionError) as e:
            rec['status'] = 'undecided'; rec['why'] = 'comparison budget (%s)' % type(e).__name__
            return rec
        if r is None:
            rec['status'] = 'discharged'; return rec
        if alt is not None:
            name, aterm = alt
            if compare(actual, aterm, facts, nan, limit) is None:
                rec['status'] = 'known'; rec['finding'] = name
                rec['why'] = 'equals the recorded defective form: ' + name
                return rec
        cases, x, y = r
        um = set()
        if res is not None: um |= set(res.I.unmodelled)
        um -= set(free)      # their results are arbitrary for the property
        um |= set(unmod)
        why = opaque_reason(x, y, um, free, given) or opaque_case(cases, actual, spec, um, free, given)
        if why and why.endswith('different state (loop)'):
            # the first rounds can be compared whatever the recurrences carry
            d = self.early(actual, spec, facts, nan, limit, um, free, given)
            if d is not None: cases, x, y = d; why = None
        # both sides of a relational comparison are code
        if not why and self.pid == 'C05': why = opaque_reason(y, x, um) or opaque_case(cases, spec, actual, um)
        rec['case'] = [c[:160] for c in cases[:14]]
        rec['got'] = show(x, maxd=14)[:700]; rec['want'] = show(y, maxd=14)[:700]
        if why:
            rec['status'] = 'undecided'; rec['why'] = why
        else:
            rec['status'] = 'violated'
        return rec
    def early(self, actual, spec, facts, nan, limit, um, free, given):
        """a difference among the runs whose loops end within a few rounds, or None"""
        old = signal.signal(signal.SIGALRM, _alarm)
        try:
            for rounds in (1, 2):
                a, b, fs = actual, spec, list(facts)
                for again in range(2):
                    a, b, fs = unroll(a, rounds), unroll(b, rounds), [unroll(f, rounds) for f in fs]
                    signal.alarm(40)
                    r = compare(a, b, fs, nan, limit)
                    signal.alarm(0)
                    if r is None: break
                    cases, x, y = r
                    why = opaque_reason(x, y, um, free, given) or opaque_case(cases, a, b, um, free, given)
                    if not why and any('app:more' in ops_of(t) for t in [x, y] + [t for c in cases for t in getattr(c, 'fam', ()) if isinstance(t, T.Node)]): why = 'more rounds'
                    if not why: return r
                    if not why.endswith('different state (loop)'): break
        except (Budget, Timeout, RecursionError, ZeroDivisionError): pass
        finally:
            signal.alarm(0); signal.signal(signal.SIGALRM, old)
        return None
    def fact(self, key, rule, ok, site='', got='', want='', undecided=None):
        """a decided structural fact"""
        rec = {'key': key, 'rule': rule, 'site': site, 'status': 'discharged' if ok else 'violated'}
        if not ok:
            rec['got'] = str(got)[:700]; rec['want'] = str(want)[:700]; rec['case'] = []
            if undecided: rec['status'] = 'undecided'; rec['why'] = undecided
        self.obs.append(rec)
        return rec
    def undecided(self, key, rule, why):
        self.obs.append({'key': key, 'rule': rule, 'status': 'undecided', 'why': str(why)[:300], 'site': ''})

class Lab(str):
    """a case, with the quantity it splits on"""
    fam = (); asg = None

class FEquiv(Equiv):
    """equality under facts; NaN regions are skipped unless requested"""
    def __init__(self, facts, nan, limit):
        Equiv.__init__(self, limit)
        self.facts0 = facts; self.nan = nan
    def run(self, a, b):
        return self.chk(a, b, self.facts0)
    def check(self, a, b, depth=0):
        return self.chk(a, b, self.cur)
    cur = TRUE
    known = frozenset()      # (term, variant) chosen on this branch
    def eta(self, a, x, facts):
        """a constructor against a plain term whose variant is known: compare the fields"""
        if not (T.NVARIANTS.get(a.args[0]) == 1 or a.args[0] == 'tuple' or (x, a.args[1]) in self.known): return False
        for i, v in enumerate(a.args[2:]):
            if v.op == 'fld' and v.args[0] is x and v.args[1] == (a.args[1], i): continue
            if self.chk(v, field(x, (a.args[1], i), str(i), v.kind, v.ty), facts) is not None: return False
        return True
    def chk(self, a, b, facts):
        if a is b or a is BOT or b is BOT or facts is FALSE: return None
        if a.op == 'app' and a.args[0] == 'more' or b.op == 'app' and b.args[0] == 'more': return None
        key = (a, b, facts, self.known)
        if key in self.memo: return self.memo[key]
        self.n += 1
        if self.n > self.limit: raise Budget()
        self.memo[key] = ([], a, b)          # a question that depends on itself adds nothing
        old = self.cur; cut = self.pruned
        self.cur = facts
        try: r = self._check(a, b, 0)
        finally: self.cur = old
        if r is not None or self.pruned == cut: self.memo[key] = r
        else: del self.memo[key]             # the answer used the case it was asked in
        return r
    trail = ()               # (linear form, '<' or '<=') of the enclosing cases
    pruned = 0
    def bounds(self, fam, asg, val):
        q = fam[1]
        if fam[0] not in ('int', 'real') or q.kind not in NUM: return ()
        if val is not None: z = sub(q, num(val)); return ((z, '<='), (neg(z), '<='))
        out = []
        for x, v in asg.items():
            if x.op not in ('ge', 'lt'): continue
            z = sub(q, x.args[1])
            if x.op == 'ge': out.append((neg(z), '<=') if v else (add(z, ONE), '<=') if all(c.denominator == 1 for c in T._pd(q).values()) else (z, '<'))
            elif v: out.append((z, '<'))
            else: out.append((neg(z), '<'))      # equality is a region of its own
        return tuple(out)
    def _check(self, a, b, depth):
        facts = self.cur
        if a.op == b.op == 'adt' and a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
            for x, y in zip(a.args[2:], b.args[2:]):
                if isinstance(x, T.Node):
                    r = self.chk(x, y, facts)
                    if r is not None: return r
            return None
        if a.op != 'ite' and b.op != 'ite' and a.op == b.op and a.op in ('app', 'fld', 'sel', 'store', 'bind', 'ge', 'lt', 'eq', 'un', 'is', 'ref', 'chunks', 'ch'):
            # a whole-term match needs no case split; below binders facts still hold
            if self._struct(a, b, depth): return None
        ats = list(atoms_of(a) | atoms_of(b) | (atoms_of(facts) if facts is not TRUE else frozenset()))
        la = T._loose_set_cached(a) | T._loose_set_cached(b)
        own = atoms_of(a) | atoms_of(b)
        cand = [x for x in own if T._loose_set_cached(x) <= la]
        if cand:
            pure = [x for x in cand if not x.ites] or cand
            tops = [t.args[0] for t in (a, b) if t.op == 'ite' and t.args[0] in pure]
            at = min(tops) if tops else min(pure)
            fam = family(at)
            grp = [x for x in ats if family(x) == fam]
            for lab, asg, val in regions(fam, grp):
                if not self.nan and fam[0] == 'real' and lab.endswith(' is NaN'): continue
                f2 = restrict(facts, asg) if facts is not TRUE else TRUE
                if f2 is FALSE: continue
                old = self.known
                if fam[0] == 'enum':
                    v = [x.args[2] for x, t in asg.items() if t]
                    if not v and T.NVARIANTS.get(fam[2]) == 2: v = [1 - x.args[2] for x in asg][:1]
                    if v: self.known = old | {(fam[1], v[0])}
                elif val is not None and fam[1].kind in NUM:
                    q = solve(sub(fam[1], num(val)))
                    if q is not None: self.known = old | {('=',) + q}
                    self.known = self.known | {('0', sub(fam[1], num(val)))}
                was = self.trail
                self.trail = was + self.bounds(fam, asg, val)
                try: r = self.chk(restrict(a, asg), restrict(b, asg), f2)
                finally: self.known = old; self.trail = was
                if r is not None:
                    lab = Lab(lab); lab.fam = fam; lab.asg = asg
                    return ([lab] + r[0], r[1], r[2])
            return None
        if self._leaf_equal(a, b, depth): return None
        if a.kind in NUM and b.kind in NUM and not T._special(a, b) and a is not BOT and b is not BOT:
            if zerohere([t[1] for t in self.known if t[0] == '0'], sub(a, b)): return None
        eqs = {x: y for t in self.known if len(t) == 3 for x, y in (t[1:],)}
        if eqs:
            a1, b1 = subst(a, eqs), subst(b, eqs)
            if (a1 is not a or b1 is not b):
                old = self.known
                self.known = frozenset(t for t in old if len(t) == 2)
                try:
                    if self.chk(a1, b1, facts) is None: return None
                finally: self.known = old
        if a.op == 'adt' and b.op != 'adt' and self.eta(a, b, facts): return None
        if b.op == 'adt' and a.op != 'adt' and self.eta(b, a, facts): return None
        if len(self.trail) > 1 and empty(self.trail) or self.trail and facts is not TRUE and self.excluded(facts):
            self.pruned += 1; return None
        return ([], a, b)
    def excluded(self, facts, cap=24):
        """no way to meet the facts agrees with the linear bounds of the case"""
        n = 0; work = [(facts, ())]
        while work:
            f, bs = work.pop()
            if f is FALSE: continue
            if f.op == 'ite':
                at = f.args[0]; fam = family(at)
                for v, k in ((True, f.args[1]), (False, f.args[2])):
                    if k is not FALSE: work.append((k, bs + self.bounds(fam, {at: v}, None)))
            else:
                if not bs or not empty(self.trail + bs): return False
            n += 1
            if n > cap: return False
        return True

def empty(trail, cap=600):
    """no point satisfies all the linear bounds of the case (elimination of one quantity after another)"""
    cs = set(); nats = set()
    for z, rel in trail:
        d = T._pd(z); c = d.pop((), 0)
        cs.add((tuple(sorted(d.items(), key=lambda x: [(a.id, e) for a, e in x[0]])), c, rel))
        nats |= {m for m in d if all(a.kind == 'nat' and e >= 1 and e.denominator == 1 for a, e in m)}
    cs |= {(((m, Q(-1)),), Q(0), '<=') for m in nats}
    while True:
        for f, c, rel in cs:
            if not f and (c > 0 or c == 0 and rel == '<'): return True
        cs = {x for x in cs if x[0]}
        if not cs: return False
        ms = {}
        for f, c, rel in cs:
            for m, k in f:
                n = ms.setdefault(m, [0, 0]); n[k > 0] += 1
        m = min(ms, key=lambda x: (ms[x][0] * ms[x][1], [(a.id, e) for a, e in x]))
        pos = [x for x in cs if dict(x[0]).get(m, 0) > 0]; neg_ = [x for x in cs if dict(x[0]).get(m, 0) < 0]
        cs = {x for x in cs if m not in dict(x[0])}
        for p in pos:
            for q in neg_:
                dp, dq = dict(p[0]), dict(q[0]); a, b = -dq[m], dp[m]
                d = {k: a * v for k, v in dp.items()}
                for k, v in dq.items(): d[k] = d.get(k, 0) + b * v
                d = {k: v for k, v in d.items() if v}
                sc = abs(next(iter(sorted(d.items(), key=lambda x: [(t.id, e) for t, e in x[0]])))[1]) if d else 1
                f = tuple(sorted(((k, v / sc) for k, v in d.items()), key=lambda x: [(t.id, e) for t, e in x[0]]))
                cs.add((f, (a * p[1] + b * q[1]) / sc, '<' if '<' in (p[2], q[2]) else '<='))
        if len(cs) > cap: return False

def zerohere(zs, p):
    """p is zero where all of zs are"""
    if any(divides(z, p) for z in zs): return True
    for i, x in enumerate(zs):
        for y in zs[:i]:
            dx, dy = T._pd(x), T._pd(y); seen = set()
            for m in dx:
                if m in dy and dx[m] / dy[m] not in seen:
                    seen.add(dx[m] / dy[m])
                    if divides(sub(x, T.scale(y, dx[m] / dy[m])), p): return True
    return False

def divides(z, p, steps=64):
    """p is a multiple of z (Laurent polynomial division): p is zero where z is"""
    dz = T._pd(z)
    if not dz: return False
    ats = sorted({a for d in (dz, T._pd(p)) for m in d for a, e in m}, key=lambda a: a.id)
    key = lambda m: [dict(m).get(a, 0) for a in ats]
    def lead(d): return max(d, key=key)
    lz = lead(dz); cz = dz[lz]; li = {a: -e for a, e in lz}
    # a factor of all of z may be what is zero: the quotient must stay finite there
    content = [a for a in ats if all(dict(m).get(a, 0) > 0 for m in dz)]
    for _ in range(steps):
        d = T._pd(p)
        if not d: return True
        m = lead(d); q = dict(m)
        for a, e in li.items(): q[a] = q.get(a, 0) + e
        if any(q.get(a, 0) < 0 for a in content): return False
        q = T._mkpoly({tuple(sorted(((a, e) for a, e in q.items() if e), key=lambda x: x[0].id)): d[m] / cz})
        p2 = sub(p, T.mul(q, z))
        if len(T._pd(p2)) > len(d) + len(dz): return False
        if m in T._pd(p2): return False
        p = p2
    return False

def solve(p):
    """p = 0 as (atom, value): an atom occurring linearly and nowhere else"""
    d = T._pd(p)
    for m, c in sorted(d.items(), key=lambda x: -max([a.id for a, e in x[0]] or [0])):
        if len(m) == 1 and m[0][1] == 1:
            at = m[0][0]
            rest = T._mkpoly({k: -v / c for k, v in d.items() if k != m})
            if not find(rest, lambda x: x is at): return at, rest
    return None

def compare(a, b, facts=(), nan=False, limit=20000):
    f = b_and(*facts) if facts else TRUE
    a, b, f = T.dropzeros(a), T.dropzeros(b), T.dropzeros(f)
    e = FEquiv(f, nan, limit)
    if not nan:
        # ordinary numbers only: drop the unordered cases first
        un = [x for x in atoms_of(a) | atoms_of(b) | atoms_of(f) if x.op == 'un' and not T._loose_set_cached(x)]
        if un:
            asg = {x: False for x in un}
            a = restrict(a, asg); b = restrict(b, asg); e.facts0 = restrict(f, asg)
        a = dropnan(a); b = dropnan(b)
    return e.run(a, b)

def ops_of(n):
    out = {}; seen = set(); st = [n]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'bind': out.setdefault('bind:' + t.args[0], []).append(t)
        elif t.op == 'app': out.setdefault('app:' + t.args[0], []).append(t)
        st.extend(T._kids(t))
    return out

def unroll(n, rounds):
    """the outermost recurrences written out for this many rounds; what later rounds give is left open ('more')"""
    top = []; seen = set(); st = [n]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'bind' and t.args[0] == 'loop':
            top.append(t); st.extend(bind_parts(t)[3])
        else: st.extend(T._kids(t))
    if not top: return n
    m = {}
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = one(t) if t in tops else T.rebuild(t, go)
        return r
    tops = set(top)
    def one(t):
        op, h, nv, ins, bodies = bind_parts(t)
        hask = nv - len(ins)
        vals = [go(i) for i in ins]
        out = []
        for k in range(rounds):
            bs = T.open_bind(t, ([num(k)] if hask else []) + vals)
            out.append((bs[0], bs[1])); vals = list(bs[2:])
        r = app('more', kind=t.kind) if t.ty is None else T.app('more', kind=t.kind, ty=t.ty)
        for e, v in reversed(out): r = ite(e, v, r)
        return r
    return go(n)

def opaque_case(cases, actual, spec, unmodelled, free=(), given=()):
    """a difference seen only where a quantity the analysis could not resolve takes a certain value cannot be judged"""
    for c in cases:
        for t in getattr(c, 'fam', ()):
            if not isinstance(t, T.Node): continue
            why = opaque_reason(t, spec, unmodelled, free, given)
            if why: return why
        if getattr(c, 'asg', None): spec = restrict(spec, c.asg)
    return None

def opaque_reason(x, y, unmodelled, free=(), given=()):
    """why a difference cannot be judged, or None; quantities in given are premises, what free names is arbitrary"""
    ox, oy = ops_of(x), ops_of(y)
    for g in given:
        for k, v in ops_of(g).items(): oy[k] = oy.get(k, []) + v
    for u in unmodelled:
        for pre in ('', 'post0:', 'post1:', 'post2:', 'post3:'):
            if 'app:' + pre + u in ox and 'app:' + pre + u not in oy: return 'depends on the unmodelled operation ' + u
    for nm in ('agg', 'undef', 'par_reduce', 'wrap', 'collect', 'apply'):
        if 'app:' + nm in ox and 'app:' + nm not in oy and nm not in free: return 'depends on ' + nm
    for nm in ('loop', 'fold', 'flat'):
        if nm in free: continue
        lx = ox.get('bind:' + nm, []); ly = oy.get('bind:' + nm, [])
        def shape(t):
            o, h, nv, outer, bodies = bind_parts(t)
            return (nv, len(outer), tuple(sorted(b.kind if b.kind not in NUM else 'num' for b in bodies)))
        sy = set(map(shape, ly))
        for t in lx:
            if shape(t) not in sy and nm == 'loop' and any(miscount(t, w) for w in ly): continue
            if shape(t) not in sy: return 'depends on a recurrence with a different state (%s)' % nm
    return None

_mc = {}
def miscount(t, w):
    """t would be the recurrence w if one of its variables counted the rounds, and that variable misses rounds for a reason outside itself"""
    r = _mc.get((t, w))
    if r is not None: return r
    r = _mc[(t, w)] = _miscount(t, w)
    return r
def _miscount(t, w):
    op, h, nv, ins, bodies = bind_parts(t)
    n = len(ins); hask = nv - n
    if n <= len(bind_parts(w)[3]) or hask not in (0, 1): return False
    for j in range(n):
        if not (ins[j].op == 'const' and ins[j].kind in NUM): continue
        k = fresh('k', 'nat'); vs = [fresh('v', i.kind, i.ty) for i in ins]
        bs = T.open_bind(t, ([k] if hask else []) + vs)
        nx = bs[2:]
        if len(nx) != n or nx[j].kind not in NUM: continue
        dev = b_and(b_not(bs[0]), b_not(eq(nx[j], add(vs[j], ONE))))
        others = set(vs) - {vs[j]} | {k}
        if dev is FALSE or not any(set(find(a, lambda q: q in others)) for a in atoms_of(dev)): continue
        m = {vs[j]: add(ins[j], k)}
        rest = [i for i in range(n) if i != j]
        b2 = [subst(b, m) for i, b in enumerate(bs) if i != 2 + j]
        t2 = closeb('loop', tuple(ins[i] for i in rest), tuple([k] + [vs[i] for i in rest]), tuple(b2), t.kind, t.ty)
        try:
            if compare(t2, w) is None: return True
        except (Budget, RecursionError): pass
    return False

def _sel(self, v, i):
    """element i of a sequence, typed from the sequence's type"""
    if v.op == 'ite': return map_leaves(v, lambda l: _sel(self, l, i))
    if v.kind == 'mat': return select(v, i, 'real')
    e = None
    if isinstance(v.ty, int):
        t = self.db.ty(self.db.strip(v.ty))
        e = t.get('t') if t['k'] in ('slice', 'array') else (t['args'][0] if t['k'] == 'adt' and t['args'] else None)
    if e is None: return select(v, i)
    return select(v, i, self.db.kind(e), self.db.strip(e))
Ctx.sel = _sel
def _sum(self, n, body):
    k = fresh('k', 'nat')
    return bsum(k, n, body(k))
Ctx.sum = _sum
def _any(self, n, body):
    k = fresh('k', 'nat'); return bany(k, n, body(k))
def _all(self, n, body):
    k = fresh('k', 'nat'); return ball(k, n, body(k))
def _seq(self, n, body, ty=None):
    k = fresh('k', 'nat'); return T.seq(k, n, body(k), ty)
Ctx.any = _any; Ctx.all = _all; Ctx.seq = _seq
Q = Fraction
def sqrt(x): return power(x, Fraction(1, 2))
def inv(x): return power(x, -1)
def exp(x): return app('exp', x, kind='real')
def ln(x): return models.scalar_fn('ln')(x)
def ceil_usize(x):
    if isnum(x):
        import math
        return num(math.ceil(numval(x)))
    if x.kind in ('int', 'nat'): return x
    return app('toint', app('ceil', x, kind='real'), kind='nat')
def floor_usize(x):
    if x.kind in ('int', 'nat'): return x
    return app('toint', app('trunc', x, kind='real'), kind='nat')
def b_ite(c, a, b): return ite(c, a, b)
def _find_type(self, last):
    for p in self.tyid:
        if p.split('::')[-1] == last: return p
    raise Undecided('type %s not found' % last)
Ctx.find_type = _find_type

def _loop(self, inits, fn, counter=False, types=None):
    """terms of a recurrence: fn(k, vars) -> (exit condition, next values); returns the values on leaving"""
    k = fresh('k', 'nat')
    vs = [fresh('v', i.kind, (types or {}).get(j, i.ty)) for j, i in enumerate(inits)]
    ex, nx = fn(k, vs)
    nexts = dict(zip(vs, nx)); ins = dict(zip(vs, inits))
    out = [T.mkloop(k, vs, ins, ex, m, nexts, m.kind, m.ty) for m in vs + ([k] if counter else [])]
    return out
Ctx.loop = _loop
def find(t, pred):
    """outermost sub-terms satisfying pred"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if pred(x): out.append(x); continue
        st.extend(T._kids(x))
    return out
def count(events):
    """how often the recorded operations happen"""
    tot = ZERO
    for e in events:
        g = e.guard
        for l in e.loops: g = care(g, lt(l.k, l.n))
        b = ite(g, ONE, ZERO)
        for l in reversed(e.loops): b = bsum(l.k, l.n, b)
        tot = add(tot, b)
    return tot
def find_all(t, pred):
    """all sub-terms satisfying pred"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if pred(x): out.append(x)
        st.extend(T._kids(x))
    return out
def owned(db, t):
    """a container the library itself fills: the evaluated points of a generation and the state's vectors and matrices"""
    if t.kind == 'mat': return True
    if t.op == 'fld' and t.args[2] in ('individuals', 'points'): return True
    st = [t.ty]; seen = set()
    while st:
        i = st.pop()
        if not isinstance(i, int) or i in seen: continue
        seen.add(i); ty = db.ty(i)
        if ty['k'] == 'adt':
            if ty.get('path', '').endswith('EvaluatedPoint'): return True
            st += [a for a in ty.get('args', ()) if isinstance(a, int)]
        else: st += [ty[k] for k in ('t', 'e') if isinstance(ty.get(k), int)]
    return False
class Cache(dict):
    """shared analyses; a property that uses one has analysed its function too"""
    owner = None
    def get(self, k, d=None):
        v = dict.get(self, k, d)
        if isinstance(v, Res) and v not in self.owner.runs: self.owner.runs.append(v)
        return v
class Bar:
    """a function summarised by an uninterpreted result and an uninterpreted effect on its &mut arguments"""
    def __init__(self, C, bid, label):
        self.C = C; self.bid = bid; self.label = label; self.body = C.db.bodies[bid]
    def __call__(self, *vals):
        db = self.C.db; ty = self.body['locals'][0][0]
        r = app(self.label, *vals, kind=db.kind(ty), ty=db.strip(ty))
        return boolterm(r) if r.kind == 'bool' else r
    def post(self, i, *vals):
        db = self.C.db; ty = db.strip(self.body['locals'][i + 1][0])
        return app('post%d:%s' % (i, self.label), *vals, kind=db.kind(ty), ty=ty)
    def handler(self):
        return self.C.barrier(self.bid, self.label)
def _bar(self, selfty, name, label, sig=None, trait=None, pick=None):
    return Bar(self, self.fn(selfty, name, sig=sig, trait=trait, pick=pick), label)
Ctx.bar = _bar
