"""Interprocedural gated value-graph analysis over dumped MIR.

One forward pass per control-flow graph in reverse post order: every block is visited once with the
gated merge of its predecessors, loops are solved as recurrences (induction variables, reductions,
comprehensions, search loops, otherwise an opaque recurrence term).  Nothing is executed and no path
is enumerated."""
import json, re
from fractions import Fraction
from terms import *
import terms as T

class Unmodelled(Exception): pass
TRANSPARENT = ('core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'core::mem::maybe_uninit::MaybeUninit',
               'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling')

# ------------------------------------------------------------------ program database
class DB:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d['types']
        self.bodies = d['bodies']
        self.roots = d['roots']
        self.items = d['items']
        self.unsafe_blocks = d['unsafe_blocks']
        self.crate = d['crate']
        self._cfg = {}
        for t in self.types:
            if t.get('k') == 'adt' and 'variants' in t:
                NVARIANTS[t['path']] = len(t['variants'])
                for i, v in enumerate(t['variants']):
                    nm = v['n'] if not t['enum'] else t['path'].split('::')[-1] + '::' + v['n']
                    VNAMES[(t['path'], i)] = nm
                    FNAMES[(t['path'], i)] = [f['n'] for f in v['f']]
        self.kindcache = {}
    def ty(self, i): return self.types[i]
    def kind(self, i):
        if i is None: return 'other'
        r = self.kindcache.get(i)
        if r is None:
            r = self._kind(i); self.kindcache[i] = r
        return r
    def _kind(self, i):
        t = self.types[i]
        k = t.get('k')
        if k == 'bool': return 'bool'
        if k == 'uint': return 'nat'
        if k == 'int': return 'int'
        if k == 'float': return 'real'
        if k in ('str', 'char'): return 'str'
        if k in ('ref', 'ptr'): return self.kind(t['t'])
        if k in ('slice', 'array'): return 'seq'
        if k == 'adt':
            p = t['path']
            if p == 'nalgebra::base::matrix::Matrix': return 'mat'
            if p in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'): return 'seq'
            if p == 'alloc::string::String': return 'str'
            if p in ('core::time::Duration', 'std::time::Instant'): return 'nat'
            if t['box'] and t['args']: return self.kind(t['args'][0])
        return 'other'
    def strip(self, i):
        """through references and boxes"""
        while i is not None:
            t = self.types[i]
            if t['k'] in ('ref', 'ptr'): i = t['t']
            elif t['k'] == 'adt' and t['box']: i = t['args'][0]
            else: return i
        return i
    def cfg(self, bid):
        r = self._cfg.get(bid)
        if r is None:
            r = CFG(self, self.bodies[bid]); self._cfg[bid] = r
        return r
    def short(self, tyid):
        t = self.types[self.strip(tyid)]
        k = t['k']
        if k == 'adt': return t['path'].split('::')[-1]
        if k in ('slice', 'array', 'str', 'tuple', 'closure', 'dyn'): return k
        return t['s']

class CFG:
    def __init__(self, db, body):
        self.body = body
        bl = body['blocks']
        n = len(bl)
        self.n = n
        succ = []
        for b in bl:
            t = b['t']; k = t[0]
            if k == 'goto': s = [t[1]]
            elif k == 'switch': s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop': s = [t[2]]
            elif k == 'call': s = [t[4]] if t[4] is not None else []
            elif k == 'assert': s = [t[3]]
            else: s = []
            succ.append(s)
        # blocks that can reach a return without panicking
        live = set(i for i in range(n) if bl[i]['t'][0] == 'return')
        pred = [[] for _ in range(n)]
        for i in range(n):
            for j in succ[i]: pred[j].append(i)
        st = list(live)
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in live: live.add(p); st.append(p)
        self.live = live
        self.diverges = 0 not in live
        self.succ_all = succ
        self.succ = [[j for j in dict.fromkeys(s) if j in live] for s in succ]
        # reverse post order
        order = []; seen = set()
        if not self.diverges:
            stack = [(0, iter(self.succ[0]))]; seen.add(0)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); stack.append((y, iter(self.succ[y]))); break
                else:
                    order.append(x); stack.pop()
        order.reverse()
        self.order = order
        self.rpo = {b: i for i, b in enumerate(order)}
        # dominators
        idom = {0: 0} if order else {}
        ch_ = True
        preds = {b: [p for p in pred[b] if p in self.rpo and b in self.succ[p]] for b in order}
        self.preds = preds
        while ch_:
            ch_ = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpo[x] > self.rpo[y]: x = idom[x]
                                while self.rpo[y] > self.rpo[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch_ = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == idom[b]: return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if dom(s, b):
                    L = self.loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L: continue
                        L.add(x); st.extend(preds[x])
        # mentioned-later liveness
        ment = []
        self.borrowed = set()
        def places(x, out):
            if isinstance(x, dict):
                if 'l' in x and 'p' in x:
                    out.add(x['l'])
                    for e in x['p']:
                        if e[0] == 'index': out.add(e[1])
                else:
                    for v in x.values(): places(v, out)
            elif isinstance(x, list):
                for v in x: places(v, out)
        for b in bl:
            o = set()
            places(b['s'], o); places(b['t'], o)
            if b['t'][0] == 'return': o.add(0)
            ment.append(o)
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'ref' and s[2][1] == 'mut' : self.borrowed.add(s[2][2]['l'])
                if s[0] == '=' and s[2][0] == 'cast' and 'Transmute' in s[2][1]:
                    o2 = set(); places(s[2], o2); self.borrowed |= o2
        livein = {b: set(ment[b]) for b in order}
        ch_ = True
        while ch_:
            ch_ = False
            for b in reversed(order):
                s = livein[b]; k0 = len(s)
                for y in self.succ[b]: s |= livein[y]
                if len(s) != k0: ch_ = True
        self.livein = livein

# ------------------------------------------------------------------ abstract state
class State:
    __slots__ = ('m',)
    def __init__(self, m=None): self.m = m if m is not None else {}
    def copy(self): return State(dict(self.m))
    def get(self, r): return self.m.get(r, BOT)
    def set(self, r, v): self.m[r] = v

def merge_val(sel, a, b):
    if a is b: return a
    if a is BOT: return b
    if b is BOT: return a
    if a.op == b.op == 'adt' and a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
        return T._mk('adt', a.args[:2] + tuple(merge_val(sel, x, y) for x, y in zip(a.args[2:], b.args[2:])), a.kind, a.ty)
    if (a.op == 'chunks' or b.op == 'chunks') and a.op != 'ite' and b.op != 'ite':
        ca, cb = aschunks(a), aschunks(b)
        i = 0
        while i < len(ca) and i < len(cb) and ca[i] is cb[i]: i += 1
        if i > 0 or not ca or not cb:
            ns = b_not(sel)
            r = ca[:i]
            r += [ch(b_and(c.args[0], sel), c.args[1], c.args[2]) for c in ca[i:]]
            r += [ch(b_and(c.args[0], ns), c.args[1], c.args[2]) for c in cb[i:]]
            return chunks(r)
    return ite(sel, a, b)

def merge_states(edges, keep=None):
    """edges: list of (cond, State).  Returns (cond, State)"""
    if len(edges) == 1: return edges[0]
    c, s = edges[-1]
    for ci, si in reversed(edges[:-1]):
        tot = b_or(ci, c)
        sel = care(ci, tot)
        m = {}
        for r in set(si.m) | set(s.m):
            if keep is not None and not keep(r): continue
            x = si.m.get(r, BOT); y = s.m.get(r, BOT)
            m[r] = x if x is y else merge_val(sel, x, y)
        s = State(m); c = tot
    return c, s

class Event:
    def __init__(self, kind, name, args, guard, loops, span, fn, extra=None):
        self.kind = kind; self.name = name; self.args = args; self.guard = guard
        self.loops = loops; self.span = span; self.fn = fn; self.extra = extra
    def __repr__(self): return '<%s %s(%s) if %s in %s @%s>' % (self.kind, self.name, ', '.join(map(show, self.args)), show(self.guard), self.loops, self.span)

class Frame:
    _n = [0]
    def __init__(self, body, bid):
        Frame._n[0] += 1
        self.id = Frame._n[0]; self.body = body; self.bid = bid
    def L(self, i): return ('L', self.id, i)

class LoopInfo:
    def __init__(self, lid, k): self.id = lid; self.k = k; self.n = self.rounds = None  # n bounds k; rounds: how many are completed
    def __repr__(self): return 'loop%d(%s<%s)' % (self.id, show(self.k), show(self.n) if self.n is not None else '?')

ASSUMED = {}     # subtractions whose absence of underflow was taken for granted, and the bounds that say so
class Interp:
    def __init__(self, db, barriers=None, opts=None):
        self.db = db
        self.barriers = barriers or {}
        self.events = []; self.arith = []; self.subok = {}
        self.mute = 0
        self.loops = []
        self.depth = 0
        self.span = ''
        self.fnstack = []
        self.lid = 0
        self.seqno = {}
        self.unmodelled = {}
        self.opts = opts or {}
        self.stats = {'calls': 0, 'blocks': 0, 'loops': 0, 'inlined': set(), 'fns': set(), 'genloops': 0}
        self.tmp = 0
        T.LO.clear(); T.HI.clear(); ASSUMED.clear()
        self.curpc = TRUE
        import models
        self.models = models

    # ---------------------------------------------------------------- helpers
    def kind(self, tyid): return self.db.kind(tyid)
    def newroot(self, tag='T'):
        self.tmp += 1
        return (tag, self.tmp)
    def event(self, kind, name, args, pc, extra=None):
        if self.mute: return
        # conditions inside a loop start at its header: add those under which it is entered
        if self.loops: pc = b_and(*[l.pc for l in self.loops], pc)
        self.events.append(Event(kind, name, tuple(args), pc, tuple(self.loops), self.span,
                                 self.fnstack[-1] if self.fnstack else '?', extra))
        self.events[-1].own = next((f for f in reversed(self.fnstack) if f.startswith('cmaes::')), '?')

    def expand(self, x, variant, tyid):
        """symbolic record -> explicit fields"""
        ty = x.ty if x.ty is not None else tyid
        ty = self.db.strip(ty if isinstance(ty, int) else tyid)
        t = self.db.ty(ty) if ty is not None else None
        if t is None: raise Unmodelled('expand of untyped value')
        if t['k'] == 'adt' and 'variants' in t and variant < len(t['variants']):
            fs = t['variants'][variant]['f']
            if x is BOT: return adt(t['path'], variant, *[BOT] * len(fs), ty=ty)
            return adt(t['path'], variant, *[field(x, (variant, i), f['n'], self.kind(f['t']), self.db.strip(f['t'])) for i, f in enumerate(fs)], ty=ty)
        if t['k'] == 'tuple':
            if x is BOT: return adt('tuple', 0, *[BOT] * len(t['args']), ty=ty)
            return adt('tuple', 0, *[field(x, (0, i), str(i), self.kind(a), self.db.strip(a)) for i, a in enumerate(t['args'])], ty=ty)
        if t['k'] == 'closure':
            return adt('closure', 0, ty=ty)
        if x is BOT: return adt(t.get('path', t['s']), variant, ty=ty)
        raise Unmodelled('expand of ' + t['s'])

    # ---------------------------------------------------------------- places
    # a resolved place is a list of (cond, root, path) or ('val', node)
    # path element: ('f', (variant, idx), name, fty, cty) | ('i', node, fty)
    def rd(self, st, root, path):
        v = st.get(root)
        for e in path:
            if e[0] == 'f': v = field(v, e[1], e[2], self.kind(e[3]), self.db.strip(e[3]))
            else: v = select(v, e[1], self.kind(e[2]) if e[2] is not None else 'other', self.db.strip(e[2]))
        return v
    def wr(self, st, root, path, val):
        st.set(root, self.upd(st.get(root), path, val))
    def upd(self, v, path, val):
        if not path: return val
        e = path[0]
        if e[0] == 'f':
            inner = field(v, e[1], e[2], self.kind(e[3]), self.db.strip(e[3])) if v is not BOT else BOT
            return setfield(v, e[1], self.upd(inner, path[1:], val), lambda x, var: self.expand(x, var, e[4]))
        inner = select(v, e[1], self.kind(e[2]), self.db.strip(e[2]))
        return store(v, e[1], self.upd(inner, path[1:], val))
    def wrloc(self, st, locs, val):
        if len(locs) == 1:
            self.wr(st, locs[0][1], locs[0][2], val); return
        for c, r, p in locs:
            old = self.rd(st, r, p)
            self.wr(st, r, p, merge_val(c, val, old))
    def rdloc(self, st, locs):
        r = None
        for c, root, p in reversed(locs):
            v = self.rd(st, root, p)
            r = v if r is None else merge_val(c, v, r)
        return r
    def mkref(self, locs):
        out = BOT
        for c, root, p in reversed(locs):
            shape = []; nodes = []
            for e in p:
                if e[0] == 'f': shape.append(e)
                else: shape.append(('i', e[2])); nodes.append(e[1])
            r = T._mk('ref', (root, tuple(shape)) + tuple(nodes))
            out = r if out is BOT else ite(c, r, out)
        return out
    def unref(self, st, v):
        """reference value -> locations; transparent values get a private heap cell"""
        out = []
        def walk(n, c):
            if n.op == 'ite':
                a = T._atomvar(n.args[0])
                walk(n.args[1], b_and(c, a)); walk(n.args[2], b_and(c, b_not(a))); return
            if n is BOT: return
            if n.op == 'ref':
                root, shape = n.args[:2]; nodes = list(n.args[2:])
                p = []
                for e in shape:
                    if e[0] == 'f': p.append(e)
                    else: p.append(('i', nodes.pop(0), e[1]))
                out.append((c, root, tuple(p))); return
            root = ('H', n.id)
            if root not in st.m: st.set(root, n)
            out.append((c, root, ()))
        walk(v, TRUE)
        if not out:
            root = self.newroot(); st.set(root, BOT); out.append((TRUE, root, ()))
        return out
    def deref(self, st, v):
        """value behind a (possibly mutable) reference"""
        if v.op == 'ref' or (v.op == 'ite' and any(l.op == 'ref' for l in leaves(v))):
            return self.deref(st, self.rdloc(st, self.unref(st, v)))
        return v
    def deep(self, st, v, memo=None):
        """value with every mutable reference replaced by the current content"""
        if memo is None: memo = {}
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            if t.op == 'ref':
                memo[t] = BOT
                r = go(self.rdloc(st, self.unref(st, t)))
            elif t.op in ('adt', 'ite', 'chunks', 'ch', 'app'):
                r = rebuild(t, go)
            else: r = t
            memo[t] = r
            return r
        return go(v)

    def place(self, fr, st, pl):
        """-> locs or ('val', node); also returns type id"""
        body = fr.body
        tyid = body['locals'][pl['l']][0]
        locs = [(TRUE, fr.L(pl['l']), ())]
        val = None
        variant = 0
        for e in pl['p']:
            t = self.db.ty(tyid) if tyid is not None else {'k': 'other', 's': '?'}
            if e[0] == 'deref':
                variant = 0
                v = val if val is not None else self.rdloc(st, locs)
                if v.op == 'ref' or (v.op == 'ite' and any(l.op == 'ref' for l in leaves(v))):
                    locs = self.unref(st, v); val = None
                elif t['k'] in ('ref', 'ptr') and t['mut'] and val is None:
                    locs = self.unref(st, v)
                tyid = t['t'] if t['k'] in ('ref', 'ptr') else (t['args'][0] if t.get('box') else tyid)
                continue
            if e[0] == 'downcast':
                variant = e[1]; continue
            if e[0] == 'field':
                if t['k'] == 'adt' and (t['box'] or t['path'] in TRANSPARENT):
                    # transparent pointer wrappers
                    if t['box']: tyid = e[2]
                    else: tyid = e[2]
                    continue
                name = None
                if t['k'] == 'adt' and 'variants' in t:
                    fs = t['variants'][variant]['f']
                    if e[1] < len(fs): name = fs[e[1]]['n']
                elif t['k'] in ('tuple', 'closure'): name = str(e[1])
                pe = ('f', (variant, e[1]), name, e[2], tyid)
                if val is not None: val = field(val, (variant, e[1]), name, self.kind(e[2]), self.db.strip(e[2]))
                else: locs = [(c, r, p + (pe,)) for c, r, p in locs]
                tyid = e[2]; variant = 0
                continue
            if e[0] in ('index', 'cindex'):
                ety = t.get('t')
                if e[0] == 'index': i = st.get(fr.L(e[1]))
                else:
                    v = val if val is not None else self.rdloc(st, locs)
                    i = num(e[1]) if not e[2] else sub(seqlen(v), num(e[1]))
                if val is not None: val = select(val, i, self.kind(ety), self.db.strip(ety))
                else: locs = [(c, r, p + (('i', i, ety),)) for c, r, p in locs]
                tyid = ety
                continue
            if e[0] == 'subslice':
                v = val if val is not None else self.rdloc(st, locs)
                n = seqlen(v)
                hi = sub(n, num(e[2])) if e[3] else num(e[2])
                val = app('subseq', v, num(e[1]), sub(hi, num(e[1])), kind='seq')
                continue
            raise Unmodelled('projection ' + str(e))
        return (('val', val) if val is not None else locs), tyid

    def read_place(self, fr, st, pl):
        if not pl['p']: return st.get(fr.L(pl['l']))
        r, ty = self.place(fr, st, pl)
        if isinstance(r, tuple): return r[1]
        return self.rdloc(st, r)
    def write_place(self, fr, st, pl, v):
        if not pl['p']:
            st.set(fr.L(pl['l']), v); return
        r, ty = self.place(fr, st, pl)
        if isinstance(r, tuple):
            root = self.newroot(); st.set(root, v); return
        self.wrloc(st, r, v)

    # ---------------------------------------------------------------- operands and rvalues
    def operand(self, fr, st, o):
        if 'c' in o: return self.read_place(fr, st, o['c'])
        if 'm' in o: return self.read_place(fr, st, o['m'])
        if 'k' in o: return self.const(o['k'], st)
        return FALSE   # runtime checks are off
    def const(self, k, st):
        db = self.db
        if 'v' in k:
            t = db.ty(k['t'])
            if t['k'] == 'bool': return TRUE if k['v'] else FALSE
            if t['k'] == 'float': return numstr(k['v'])
            if t['k'] == 'char': return string(k['v'])
            return num(k['v'])
        if 'str' in k: return string(k['str'])
        if 'bytes' in k: return T._mk('const', ('b', bytes(k['bytes'])), 'str')
        if 'fn' in k:
            f = k['fn']
            return T._mk('fnref', (self.fnkey(f),))
        if 'closure' in k:
            return adt('closure', k['closure'], ty=k['t'])
        if 'agg' in k:
            t = db.ty(k['t'])
            fs = [self.const(x, st) for x in k['agg']]
            if t['k'] == 'array': return mklist(fs)
            if t['k'] == 'tuple': return adt('tuple', 0, *fs, ty=k['t'])
            return adt(t['path'], k['variant'], *fs, ty=k['t'])
        if 'refto' in k: return self.const(k['refto'], st)
        if 'promoted' in k or 'cbody' in k:
            bid = k.get('promoted', k.get('cbody'))
            return self.constbody(bid)
        t = db.ty(k['t'])
        if 'opaque' in k:
            if t['k'] == 'adt' and 'variants' in t and all(not v['f'] for v in t['variants']) and len(t['variants']) == 1:
                return adt(t['path'], 0, ty=k['t'])
            if t['k'] == 'tuple' and not t['args']: return UNIT
            return app('const:' + str(k.get('name') or k['opaque']), kind=self.kind(k['t']), ty=k['t'])
        if 'static' in k: return app('static:' + k['static'], kind=self.kind(k['t']), ty=k['t'])
        raise Unmodelled('constant ' + str(k)[:80])
    _fnrefs = {}
    def fnkey(self, f):
        key = (f['p'], f.get('body'), tuple(f.get('targs', ())))
        Interp._fnrefs[key] = f
        return key
    def constbody(self, bid):
        st = State()
        r = self.run_body(bid, [], st, TRUE)
        return self.deep(st, r)

    def binop(self, op, a, b, fr=None):
        if a is BOT or b is BOT: return BOT
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            def small(x): return x.op == 'ite' and x.kind != 'bool' and len(leaves(x)) <= 6 and all(l.op in ('const', 'bot') for l in leaves(x))
            if small(a): return map_leaves(a, lambda l: self.binop(op, l, b))
            if small(b): return map_leaves(b, lambda l: self.binop(op, a, l))
        if op == 'Eq': return eq(a, b)
        if op == 'Ne': return b_not(eq(a, b))
        if a.kind == 'bool' and b.kind == 'bool':
            if op == 'BitAnd': return b_and(a, b)
            if op == 'BitOr': return b_or(a, b)
            if op == 'BitXor': return b_xor(a, b)
            if op == 'Lt': return b_and(b_not(a), b)
            if op == 'Gt': return b_and(a, b_not(b))
        if a.kind in NUM and b.kind in NUM:
            if op == 'Lt': return lt(a, b)
            if op == 'Le': return le(a, b)
            if op == 'Gt': return gt(a, b)
            if op == 'Ge': return ge(a, b)
            if op in ('Add', 'AddUnchecked'): return add(a, b)
            if op in ('Sub', 'SubUnchecked'): return sub(a, b)
            if op in ('Mul', 'MulUnchecked'): return mul(a, b)
            if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
                return adt('tuple', 0, self.binop(op[:3], a, b), FALSE)
            if op == 'Cmp': return ordering(a, b, False)
        if op == 'Cmp': return ordering(a, b, False)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked', 'Offset'):
            if op.startswith('Shr') and isnum(b): return self.idiv(a, num(2 ** int(numval(b))))
            if op.startswith('Shl') and isnum(b): return mul(a, num(2 ** int(numval(b))))
            return app(op, a, b, kind='int')
        return app(op, a, b)
    def arith_op(self, op, a, b, fr=None):
        # the verdict of the first visit counts: later visits take the absence of underflow for granted
        ok = False
        if op == 'Sub':
            ok = self.subok.get((a, b, self.curpc))
            if ok is None:
                old = ASSUMED.get((a, b), ())
                for m, q, v in old: m.pop(q, None)
                ok = self.subok[(a, b, self.curpc)] = care(ge0(sub(a, b)), self.curpc) is TRUE
                for m, q, v in old: m[q] = v
        if not self.mute: self.arith.append((op, a, b, self.curpc, fr.body['p'] if fr is not None else '', ok))
    def idiv(self, a, b):
        if isnum(a) and isnum(b) and numval(b) != 0 and numval(a) >= 0: return num(int(numval(a)) // int(numval(b)))
        if b is ONE: return a
        return app('idiv', a, b, kind='nat' if a.kind == 'nat' and b.kind == 'nat' else 'int')
    def irem(self, a, b):
        if isnum(a) and isnum(b) and numval(b) != 0 and numval(a) >= 0: return num(int(numval(a)) % int(numval(b)))
        return app('irem', a, b, kind='nat' if a.kind == 'nat' and b.kind == 'nat' else 'int')

    def optype(self, fr, o):
        if 'k' in o: return o['k'].get('t')
        pl = o.get('c') or o.get('m')
        if pl is None: return None
        ty = fr.body['locals'][pl['l']][0]
        if not pl['p']: return ty
        for e in pl['p']:
            t = self.db.ty(ty)
            if e[0] == 'deref': ty = t['t'] if t['k'] in ('ref', 'ptr') else (t['args'][0] if t.get('box') else ty)
            elif e[0] == 'field': ty = e[2]
            elif e[0] in ('index', 'cindex'): ty = t.get('t')
        return ty

    def discr(self, v, tyid):
        t = self.db.ty(self.db.strip(tyid))
        if t['k'] != 'adt' or 'variants' not in t:
            return app('discr', v, kind='int')
        def dv(i):
            if i == 2 and t['path'] == OPT: return num(2)
            d = int(t['variants'][i]['d'])
            if t['path'] == 'core::cmp::Ordering' and d == 255: d = -1
            return num(d)
        def f(n):
            if n is BOT: return BOT
            if n.op == 'adt': return dv(n.args[1])
            nv = len(t['variants'])
            if nv == 0: return BOT
            r = dv(nv - 1)
            for i in range(nv - 2, -1, -1):
                r = ite(is_variant(n, t['path'], i), dv(i), r)
            return r
        return map_leaves(v, f)

    def rvalue(self, fr, st, r, dty=None):
        k = r[0]
        if k == 'use': return self.operand(fr, st, r[1])
        if k == 'ref':
            pl = r[2]
            if r[1] == 'shared':
                # shared borrows are value snapshots
                return self.read_place(fr, st, pl)
            x, ty = self.place(fr, st, pl)
            if isinstance(x, tuple):
                root = self.newroot(); st.set(root, x[1])
                return self.mkref([(TRUE, root, ())])
            return self.mkref(x)
        if k == 'bin':
            a = self.operand(fr, st, r[2]); b = self.operand(fr, st, r[3])
            op = r[1]
            if op in ('Div', 'Rem'):
                ty = self.optype(fr, r[2])
                isf = ty is not None and self.db.ty(ty)['k'] == 'float'
                if a is BOT or b is BOT: return BOT
                if op == 'Div': return div(a, b) if isf else self.idiv(a, b)
                return app('frem', a, b, kind='real') if isf else self.irem(a, b)
            v = self.binop(op, a, b)
            if op[:3] in ('Add', 'Sub', 'Mul') and v is not BOT:
                ty = self.optype(fr, r[2])
                if ty is not None and self.db.ty(ty)['k'] in ('uint', 'int'): self.arith_op(op[:3], a, b, fr)
            if op in ('Sub', 'SubWithOverflow') and v is not BOT:
                ty = self.optype(fr, r[2])
                t = self.db.ty(ty) if ty is not None else {}
                d = v.args[2] if v.op == 'adt' else v
                if t.get('k') == 'uint' and d.op == 'poly' and d.kind == 'int':
                    g = ge0(d)
                    if g is not TRUE and care(g, self.curpc) is not TRUE:
                        old = [(m, dict(m)) for m in (T.LO, T.HI)]
                        assume_nonneg(d)
                        ASSUMED.setdefault((a, b), []).extend((m, q, v) for m, was in old for q, v in m.items() if was.get(q) != v)
            return v
        if k == 'un':
            a = self.operand(fr, st, r[2])
            if a is BOT: return BOT
            if r[1] == 'Not':
                return b_not(a) if a.kind == 'bool' else app('bitnot', a, kind='int')
            if r[1] == 'Neg': return neg(a)
            if r[1] == 'PtrMetadata': return seqlen(a)
            return app(r[1], a)
        if k == 'discr':
            v = self.read_place(fr, st, r[1])
            _, ty = self.place(fr, st, r[1])
            return self.discr(v, ty)
        if k == 'cast':
            return self.cast(fr, st, r)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r[2]]
            kd = r[1]
            if kd[0] == 'tuple': return adt('tuple', 0, *ops) if ops else UNIT
            if kd[0] == 'array': return mklist(ops)
            if kd[0] == 'adt':
                t = self.db.ty(kd[1])
                return adt(t['path'], kd[2], *ops, ty=kd[1])
            if kd[0] == 'closure':
                return adt('closure', kd[1], *ops, ty=kd[2])
            return app('agg:' + str(kd), *ops)
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            if r[2] is None: return app('repeat', v, kind='seq')
            return mklist([v] * r[2]) if r[2] <= 32 else seq(fresh('k', 'nat'), num(r[2]), v)
        return app('rvalue:' + str(r[1])[:60])

    def intbits(self, ty):
        m = re.match(r'^[iu](8|16|32|64|128|size)$', self.db.ty(ty).get('s', ''))
        return None if not m else 64 if m.group(1) == 'size' else int(m.group(1))
    def cast(self, fr, st, r):
        kind, o, ty = r[1], r[2], r[3]
        v = self.operand(fr, st, o)
        if v is BOT: return BOT
        t = self.db.ty(ty)
        if kind in ('IntToFloat',): return v
        if kind == 'IntToInt':
            if v.kind == 'bool': return ite(v, ONE, ZERO)
            oty = self.optype(fr, o)
            w, w0 = self.intbits(ty), self.intbits(oty) if oty is not None else None
            # a count in usize is taken to fit; other wide values lose their upper bits
            if w and w0 and w < w0 and self.db.ty(oty)['s'] not in ('usize', 'isize') and not (isnum(v) and abs(numval(v)) < 2 ** (w - 1)):
                return app('narrow%d' % w, v, kind=self.kind(ty))
            return v
        if kind == 'FloatToFloat':
            if t.get('s') == 'f32':
                return app('narrow_f32', v, kind='real')   # loses precision and range
            return v
        if kind == 'FloatToInt':
            if v.kind in ('int', 'nat'): return v
            if isnum(v): return num(int(numval(v)))
            kd = self.kind(ty)
            if v.op == 'app' and v.args[0] in ('ceil', 'floor', 'round', 'trunc'):
                if kd == 'nat' and v.args[0] == 'floor': v = app('trunc', v.args[1], kind='real')
                return app('toint', v, kind=kd)
            return app('toint', app('trunc', v, kind='real'), kind=kd)
        if 'Transmute' in kind:
            oty = self.optype(fr, o)
            pl = o.get('c') or o.get('m')
            if pl is not None and t['k'] == 'ptr':
                x, _ = self.place(fr, st, pl)
                if not isinstance(x, tuple):
                    cur = self.rdloc(st, x)
                    if cur.op == 'ref': return cur
                    return self.mkref(x)
            return v
        return v   # pointer coercions keep the value

    # ---------------------------------------------------------------- bodies
    def run_body(self, bid, args, st, pc, name=None):
        body = self.db.bodies[bid]
        cfg = self.db.cfg(bid)
        fr = Frame(body, bid)
        nm = name or body['p']
        self.fnstack.append(nm)
        self.stats['fns'].add(body['p'])
        self.depth += 1
        if self.depth > 120: raise Unmodelled('call depth')
        try:
            for i, a in enumerate(args): st.set(fr.L(i + 1), a)
            if cfg.diverges:
                self.event('panic', nm, [], pc)
                return BOT
            back, exits = self.region(fr, cfg, set(cfg.order), 0, st, pc, None)
            rets = [(c, s) for t, c, s in exits if t == 'RET']
            if not rets:
                return BOT
            keep = lambda r: not (r[0] == 'L' and r[1] == fr.id and r[2] != 0)
            c, s = merge_states(rets, keep)
            ret = s.get(fr.L(0))
            st.m = {r: v for r, v in s.m.items() if not (r[0] == 'L' and r[1] == fr.id)}
            # references into the dead frame are resolved to their final contents
            ret = self.escape(fr, s, ret)
            return ret
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def escape(self, fr, s, v):
        memo = {}
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            if t.op == 'ref' and t.args[0][0] == 'L' and t.args[0][1] == fr.id:
                r = go(self.rdloc(s, self.unref(s, t)))
            elif t.op in ('adt', 'ite', 'chunks', 'ch'): r = rebuild(t, go)
            else: r = t
            memo[t] = r
            return r
        return go(v)

    def region(self, fr, cfg, blocks, start, st, pc, header):
        pending = {start: [(pc, st)]}
        back = []; exits = []
        fid = fr.id
        while pending:
            b = min(pending, key=lambda x: cfg.rpo[x])
            edges = pending.pop(b)
            live = cfg.livein[b]; bor = cfg.borrowed
            keep = lambda r: not (r[0] == 'L' and r[1] == fid) or r[2] in live or r[2] in bor
            c, s = merge_states(edges, keep)
            if len(edges) == 1: s = s.copy()
            if c is FALSE: continue
            if b in cfg.loops and b != header:
                outs = self.mir_loop(fr, cfg, b, s, c)
            else:
                outs = self.block(fr, cfg, b, s, c)
            for t, cc, ss in outs:
                if cc is FALSE: continue
                if t == header and t is not None: back.append((cc, ss))
                elif t == 'RET' or t not in blocks: exits.append((t, cc, ss))
                else: pending.setdefault(t, []).append((cc, ss))
        return back, exits

    def block(self, fr, cfg, b, st, pc):
        self.stats['blocks'] += 1
        self.curpc = pc
        bl = fr.body['blocks'][b]
        for s in bl['s']:
            if s[0] == '=':
                if len(s) > 3 and s[3]: self.span = s[3] if s[3] != ':0' else self.span
                v = self.rvalue(fr, st, s[2])
                self.write_place(fr, st, s[1], v)
            elif s[0] == 'setdiscr':
                raise Unmodelled('setdiscr')
        t = bl['t']; k = t[0]
        if k == 'goto': return [(t[1], pc, st)]
        if k == 'return': return [('RET', pc, st)]
        if k == 'drop': return [(t[2], pc, st)]
        if k == 'assert':
            v = self.operand(fr, st, t[1])
            if v is not BOT and self.db.bodies:
                bad = boolterm(b_not(v) if t[2] else v)
                if b_and(pc, bad) is not FALSE: self.event('assert', str(t[4]), [], b_and(pc, bad))
            return [(t[3], pc, st)]
        if k == 'switch':
            v = self.operand(fr, st, t[1])
            if v is BOT: v = app('undef', kind='int')
            tt = self.db.ty(t[4])
            outs = []; rest = TRUE
            conds = []
            for val, tgt in t[2]:
                x = int(val)
                if tt['k'] == 'int':
                    w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(tt['s'], 64)
                    if x >= 1 << (w - 1): x -= 1 << w
                if tt['k'] == 'bool': c = v if x else b_not(v)
                elif tt['k'] == 'char': c = map_leaves(v, lambda l: eq(l, string(chr(x))))
                else: c = map_leaves(v, lambda l: l if l is BOT else eq(l, num(x)))
                if c is BOT: c = FALSE
                c = boolterm(c)
                conds.append((tgt, b_and(rest, c)))
                rest = b_and(rest, b_not(c))
            conds.append((t[3], rest))
            skips = [l for l in leaves(v) if isnum(l) and numval(l) == 2] if v.op == 'ite' and tt['s'] == 'isize' else []
            skipc = FALSE
            if skips and not any(int(val) == 2 for val, _ in t[2]):
                hs = [h for h in cfg.loops if b in cfg.loops[h]]
                if hs:
                    h = min(hs, key=lambda x: len(cfg.loops[x]))
                    skipc = b_and(rest, map_leaves(v, lambda l: l if l is BOT else (TRUE if isnum(l) and numval(l) == 2 else FALSE)))
                    conds = [(tg, b_and(c, b_not(skipc))) for tg, c in conds] + [(h, skipc)]
            livec = [(tg, c) for tg, c in conds if tg in cfg.live and c is not FALSE]
            # branches that cannot return are treated as assumptions
            dead = [(tg, c) for tg, c in conds if tg not in cfg.live]
            for tg, c in dead:
                if self.db.bodies and b_and(pc, c) is not FALSE and fr.body['blocks'][tg]['t'][0] != 'unreachable':
                    self.event('panic', self.fnstack[-1], [], b_and(pc, c))
            if len(livec) == 1:
                return [(livec[0][0], pc, st)]
            tot = b_or(*[c for _, c in livec])
            n = 0
            merged = {}
            for tg, c in livec:
                c2 = c if tot is TRUE else care(c, tot)
                merged[tg] = b_or(merged[tg], c2) if tg in merged else c2
            for tg, c in merged.items():
                cc = b_and(pc, c)
                if cc is FALSE: continue
                outs.append((tg, cc, st.copy()))
            return outs
        if k == 'call':
            f = t[1]
            if t[6] and t[6] != ':0': self.span = t[6]
            args = [self.operand(fr, st, o) for o in t[2]]
            if t[4] is None or t[4] not in cfg.live:
                self.event('panic', 'diverging call', [], pc)
                return []
            if 'k' in f and 'fn' in f['k']:
                v = self.call(f['k']['fn'], args, st, pc, t[5], t[7])
            else:
                fv = self.operand(fr, st, f)
                v = self.apply(fv, args, st, pc, t[5])
            self.write_place(fr, st, t[3], v)
            return [(t[4], pc, st)]
        if k == 'unreachable': return []
        raise Unmodelled('terminator ' + k)

    # ---------------------------------------------------------------- calls
    def callee_name(self, f):
        tr = f.get('trait') or (f.get('r') or {}).get('itrait') or f.get('itrait')
        if tr: return tr.split('::')[-1] + '::' + f['n']
        if 'selfty' in f:
            t = self.db.types[f['selfty']]
            if t['k'] == 'adt' and t['box']: return 'Box::' + f['n']
            return self.db.short(f['selfty']) + '::' + f['n']
        return f['p']

    def call(self, f, args, st, pc, dty, atys):
        self.stats['calls'] += 1
        name = self.callee_name(f)
        if 'ctor' in f:
            t = self.db.ty(f['ctor'])
            return adt(t['path'], f['variant'], *args, ty=f['ctor'])
        rp = (f.get('r') or f)
        bar = self.barriers.get(rp['p']) or self.barriers.get(f['p'])
        if bar is not None:
            return bar(self, f, args, st, pc, dty, atys)
        m = self.models.lookup(self, name, f, args)
        if m is not None and rp['p'].startswith('cmaes::') and 'body' in f and self.db.bodies[f['body']] is not None and not name.startswith('Clone::') and not name.startswith('Fn'):
            m = None
        if m is not None:
            r = m(Call(self, name, f, args, st, pc, dty, atys))
            if r is not NotImplemented:
                return r
        if f.get('kind') == 'clone': return self.deref(st, args[0])
        if 'body' in f:
            b = self.db.bodies[f['body']]
            if b is not None:
                self.stats['inlined'].add(b['p'])
                return self.run_body(f['body'], args, st, pc)
        return self.opaque(name, f, args, st, pc, dty, atys)

    def opaque(self, name, f, args, st, pc, dty, atys, effect=True, label=None):
        """unknown pure function of its arguments; mutable references are havocked to a term"""
        vals = [self.deep(st, a) for a in args]
        lab = label or name
        if label is None:
            self.unmodelled[lab] = self.unmodelled.get(lab, 0) + 1
        self.event('call', lab, vals, pc, f)
        for i, (a, ty) in enumerate(zip(args, atys)):
            t = self.db.ty(ty)
            if a.op == 'ref' or (t['k'] == 'ref' and t['mut']):
                if t['k'] == 'ref' and not t['mut']: continue
                inner = self.db.strip(ty)
                self.wrloc(st, self.unref(st, a), app('post%d:%s' % (i, lab), *vals, kind=self.kind(inner), ty=inner))
        r = app(lab, *vals, kind=self.kind(dty), ty=self.db.strip(dty))
        return boolterm(r) if r.kind == 'bool' else r

    def apply(self, fv, args, st, pc, dty=None):
        """apply a callable value"""
        fv0 = fv
        while fv.op == 'ref':
            inner = self.rdloc(st, self.unref(st, fv))
            if inner.op == 'adt' and inner.args[0] == 'closure': break
            fv = inner
        clv = self.deref(st, fv)
        if clv.op == 'adt' and clv.args[0] == 'closure':
            bid = clv.args[1]
            body = self.db.bodies[bid]
            selfty = self.db.ty(body['locals'][1][0])
            if selfty['k'] == 'ref' and selfty['mut'] and fv.op != 'ref':
                root = self.newroot(); st.set(root, clv)
                selfv = self.mkref([(TRUE, root, ())])
            elif selfty['k'] == 'ref' and selfty['mut']: selfv = fv
            else: selfv = clv
            return self.run_body(bid, [selfv] + args, st, pc)
        if clv.op == 'fnref':
            f = Interp._fnrefs[clv.args[0]]
            if 'ctor' in f:
                t = self.db.ty(f['ctor'])
                return adt(t['path'], f['variant'], *args, ty=f['ctor'])
            if 'body' in f:
                b = self.db.bodies[f['body']]
                atys = [b['locals'][i + 1][0] for i in range(b['argc'])]
                dty2 = b['locals'][0][0]
            else:
                atys = [a.ty if a.ty is not None else 0 for a in args]; dty2 = dty
            return self.call(f, args, st, pc, dty2, atys)
        if clv.op == 'ite':
            # gated callable: both applied, results gated (effects merged)
            c = T._atomvar(clv.args[0])
            s1 = st.copy(); s2 = st.copy()
            a = self.apply(clv.args[1], args, s1, b_and(pc, c), dty)
            b = self.apply(clv.args[2], args, s2, b_and(pc, b_not(c)), dty)
            _, s = merge_states([(c, s1), (b_not(c), s2)])
            st.m = s.m
            return merge_val(c, a, b)
        vals = [self.deep(st, a) for a in args]
        self.event('apply', 'callable', [clv] + vals, pc)
        k = self.kind(dty) if dty is not None else 'other'
        for i, a in enumerate(args):
            if a.op == 'ref':                # whatever the callable may change through a mutable reference
                v = vals[i]
                self.wrloc(st, self.unref(st, a), app('post%d:apply' % i, clv, *vals, kind=v.kind, ty=v.ty))
        r = app('apply', clv, *vals, kind=k, ty=self.db.strip(dty) if dty is not None else None)
        return boolterm(r) if k == 'bool' else r

    # ---------------------------------------------------------------- loops
    def mir_loop(self, fr, cfg, header, st, pc):
        blocks = cfg.loops[header]
        live = cfg.livein[header]
        def relevant(r):
            return not (r[0] == 'L' and r[1] == fr.id) or r[2] in live
        def step(s, c):
            back, exits = self.region(fr, cfg, blocks, header, s, c, header)
            return back, exits
        return self.solve_loop(st, pc, step, relevant)

    def solve_loop(self, S0, pc, step, relevant=lambda r: True):
        """returns list of (target, cond, state) leaving the loop"""
        self.lid += 1
        self.stats['loops'] += 1
        lid = self.lid
        k = sym('k#%d' % lid, 'nat')
        info = LoopInfo(lid, k); info.pc = pc
        mus = {}        # (root, path) -> (symbol, init)
        order = []
        closed = {}     # (root,path) -> closed form in k
        badclosed = set()
        ev0 = len(self.events)
        self.mute += 1
        self.loops.append(info)
        seq0 = dict(self.seqno)
        def header_state():
            S = S0.copy()
            for key in order:
                root, path = key
                v = closed.get(key, mus[key][0])
                S.set(root, put(S.get(root), path, v))
            return S
        def joinkind(a, b):
            if a == b: return a
            if a in NUM and b in NUM:
                return 'real' if 'real' in (a, b) else 'int'
            return a if b == 'other' else b
        back = None
        try:
            for it in range(40):
                S = header_state()
                self.seqno = dict(seq0)
                back, exits = step(S.copy(), TRUE)
                if not back: break
                cb, B = merge_states(back)
                changed = False
                for root in list(S.m):
                    if not relevant(root): continue
                    a = S.m[root]; b = B.m.get(root, BOT)
                    if a is b or b is BOT or a is BOT: continue
                    a2 = self.expand_like(a, b)
                    if a2 is not a:
                        S0.set(root, self.expand_like(S0.get(root), b)); a = a2
                        S.set(root, a2)
                    for path, x, y in diff(a, b):
                        key = (root, path)
                        hit = None
                        for o in order:
                            if o[0] == root and path[:len(o[1])] == o[1]: hit = o; break
                        if hit is None:
                            # a coarser location subsumes finer ones
                            for o in [o for o in order if o[0] == root and o[1][:len(path)] == path]:
                                order.remove(o); closed.pop(o, None); del mus[o]
                            init = get(S0.get(root), path)
                            kd = joinkind(init.kind, y.kind)
                            ty = init.ty if init.ty is not None else y.ty
                            mus[key] = (fresh('mu', kd, ty), init)
                            order.append(key)
                            changed = True
                        else:
                            m, init = mus[hit]
                            cur = get(a, hit[1]); nxt = get(B.m[root], hit[1])
                            if hit in closed:
                                want = subst(closed[hit], {k: add(k, ONE)})
                                if nxt is not want:
                                    del closed[hit]
                                    mus[hit] = (m, init); changed = True
                                    badclosed.add(hit)
                                continue
                            kd = joinkind(m.kind, nxt.kind)
                            if kd != m.kind:
                                mus[hit] = (fresh('mu', kd, m.ty), init); changed = True
                if changed: continue
                # induction variables
                newc = False
                for key in order:
                    if key in closed or key in badclosed: continue
                    m, init = mus[key]
                    nxt = get(B.m[key[0]], key[1])
                    if m.kind in NUM and nxt.kind in NUM:
                        d = sub(nxt, m)
                        if not (free_syms(d) & (frozenset(x[0] for x in mus.values()) | {k})) and not d.ites:
                            closed[key] = add(init, mul(d, k)); newc = True
                    elif m.kind == 'bool' or m.kind not in NUM:
                        if nxt is init and False: pass
                if newc: continue
                break
            else:
                raise Unmodelled('loop did not stabilise')
        finally:
            self.mute -= 1
        # final pass with events
        S = header_state()
        self.seqno = dict(seq0)
        back, exits = step(S.copy(), TRUE)
        self.loops.pop()
        if not back:
            info.n = ONE; info.rounds = ZERO
            return [(t, b_and(pc, c), s) for t, c, s in exits]
        cb, B = merge_states(back)
        musyms = {}
        nexts = {}
        inits = {}
        for key in order:
            if key in closed: continue
            m, init = mus[key]
            musyms[m] = key
            nexts[m] = get(B.m.get(key[0], BOT), key[1])
            inits[m] = init
        outs = self.close_loop(info, k, musyms, nexts, inits, exits, cb, pc)
        # events recorded inside keep their loop context; bound is filled by close_loop
        return outs

    def close_loop(self, info, k, musyms, nexts, inits, exits, cb, pc):
        allmu = frozenset(musyms)
        allc = b_or(*[c for _, c, _ in exits]) if exits else FALSE
        # counted exit?
        N = None; normal = None
        for j, (t, c, s) in enumerate(exits):
            n = bound_of(c, k, allmu)
            if n is not None:
                N = n; normal = j; break
        if N is not None:
            n0 = N
            if N.kind not in ('nat',): N = imax(N, ZERO)
            info.n = N
            other = [j for j in range(len(exits)) if j != normal]
            inr = b_not(exits[normal][1])
            gs = {j: care(exits[j][1], inr) for j in other}
            gany = b_or(*gs.values()) if gs else FALSE
            fsy = free_syms(gany)
            if not (fsy & allmu):
                outs = []
                found = bany(k, N, gany)
                t, c, s = exits[normal]
                sub_ = self.finals(k, N, musyms, nexts, inits)
                outs.append((t, b_and(pc, b_not(found)), self.subst_state(s, {k: N, **sub_})))
                info.rounds = N
                if gs:
                    first = bfirst(k, N, gany)
                    info.rounds = ite(found, first, N)
                    sub2 = self.finals(k, first, musyms, nexts, inits)
                    m2 = {k: first, **sub2}
                    for j in other:
                        t, c, s = exits[j]
                        g = gs[j]
                        cj = found if len(other) == 1 else b_and(found, subst(care(g, gany), m2))
                        outs.append((t, b_and(pc, cj), self.subst_state(s, m2)))
                return outs
        # general recurrence
        self.stats['genloops'] += 1
        vars_ = [k] + list(musyms)
        exitc = [c for _, c, _ in exits]
        used = self.slice(k, musyms, nexts, exitc)
        def outterm(m):
            return T.mkloop(k, list(musyms), inits, allc, m, nexts, m.kind, m.ty)
        m2 = {m: outterm(m) for m in musyms}
        m2[k] = outterm(k)
        info.n = info.rounds = m2[k]
        outs = []
        for j, (t, c, s) in enumerate(exits):
            cj = TRUE if len(exits) == 1 else subst(care(c, allc), m2)
            outs.append((t, b_and(pc, cj), self.subst_state(s, m2)))
        return outs

    def expand_like(self, a, b):
        if b.op != 'adt' or a is b or a is BOT: return a
        if a.op == 'adt':
            if a.args[:2] != b.args[:2] or len(a.args) != len(b.args): return a
            f = [self.expand_like(x, y) if isinstance(x, Node) and isinstance(y, Node) else x for x, y in zip(a.args[2:], b.args[2:])]
            if all(x is y for x, y in zip(f, a.args[2:])): return a
            return T._mk('adt', a.args[:2] + tuple(f), a.kind, a.ty)
        if a.op in ('ite', 'ref', 'chunks') or NVARIANTS.get(b.args[0]) != 1: return a
        try: e = self.expand(a, b.args[1], a.ty if a.ty is not None else b.ty)
        except Unmodelled: return a
        if e.args[:2] != b.args[:2]: return a
        return self.expand_like(e, b)

    def slice(self, k, musyms, nexts, seeds):
        need = set()
        work = []
        for s in seeds:
            for v in free_syms(s):
                if v in musyms or v is k:
                    if v not in need: need.add(v); work.append(v)
        while work:
            v = work.pop()
            if v is k: continue
            for w in free_syms(nexts[v]):
                if (w in musyms or w is k) and w not in need: need.add(w); work.append(w)
        return need

    def subst_state(self, s, m):
        keys = frozenset(m)
        out = {}
        memo = {}
        for r, v in s.m.items():
            out[r] = subst(v, m) if free_syms(v) & keys else v
        return State(out)

    def finals(self, k, N, musyms, nexts, inits):
        out = {}
        allmu = frozenset(musyms)
        for m in musyms:
            out[m] = self.reduce(k, N, m, musyms, nexts, inits, allmu)
        return out

    def reduce(self, k, N, m, musyms, nexts, inits, allmu):
        nxt = nexts[m]; init = inits[m]
        fs = free_syms(nxt) & allmu
        if not fs:
            return ite(ge(N, ONE), subst(nxt, {k: sub(N, ONE)}), init)
        if fs == {m}:
            if m.kind in NUM or m.kind == 'mat':
                d = map_leaves(nxt, lambda l: BOT if l is BOT else sub(l, m) if m.kind != 'mat' else madd(l, mscale(m, num(-1))))
                if m.kind == 'mat': d = map_leaves(d, lambda l: l)
                if not (free_syms(d) & allmu):
                    if m.kind == 'mat': return madd(init, bsum(k, N, d))
                    return add(init, bsum(k, N, d))
            if m.kind == 'bool':
                hi = subst(nxt, {m: TRUE}); lo = subst(nxt, {m: FALSE})
                if hi is TRUE and not (free_syms(lo) & allmu): return b_or(boolterm(init), bany(k, N, lo))
                if lo is FALSE and not (free_syms(hi) & allmu): return b_and(boolterm(init), ball(k, N, hi))
            if nxt.op == 'chunks' and nxt.args and nxt.args[0].args[2] is m and nxt.args[0].args[0] is TRUE:
                rest = nxt.args[1:]
                if not any(free_syms(c) & allmu for c in rest):
                    if len(rest) == 1 and rest[0].args[1] == 'e':
                        return concat(init, fseq(k, N, rest[0].args[0], rest[0].args[2]))
                    # alternatives with the same element
                    return concat(init, closeb('flat', (N,), (k,), (chunks(list(rest)),), 'seq'))
            if nxt.op == 'chunks' and nxt.args and nxt.args[-1].args[2] is m and nxt.args[-1].args[0] is TRUE:
                rest = nxt.args[:-1]
                if len(rest) == 1 and rest[0].args[1] == 'e' and not (free_syms(rest[0]) & allmu):
                    r = sub(sub(N, ONE), k)
                    return concat(fseq(k, N, subst(rest[0].args[0], {k: r}), subst(rest[0].args[2], {k: r})), init)
            if m.kind == 'real' and nxt.op == 'ite':
                fe = T.fold_extreme(k, N, m, nxt, init)
                if fe is not None: return fe
            cr = colreduce(k, N, m, nxt, init)
            if cr is not None: return cr
            if init.op == 'adt' and init.args[1:] == (0,) and NVARIANTS.get(init.args[0]) == 2:
                pf = self.peelfold(k, N, m, nxt, init)
                if pf is not None: return pf
            # element-wise update
            el = self.elementwise(nxt, m, k, init)
            if el is not None and not (free_syms(el) & allmu):
                return mapidx(k, N, init, el)
        need = self.slice(k, musyms, nexts, [m])
        vs = [m] + [x for x in musyms if x in need and x is not m]
        ins = tuple(inits[x] for x in vs)
        bodies = tuple(nexts[x] for x in vs)
        return closeb('fold', (N,) + ins, (k,) + tuple(vs), bodies, m.kind, m.ty)

    def peelfold(self, k, N, m, nxt, init):
        """an accumulator that is empty before the first round and full after it: the first round apart from the others"""
        ls = [l for l in leaves(nxt) if l is not BOT]
        if not ls or any(l.op != 'adt' or l.args[:2] != (init.args[0], 1) or len(l.args) != 3 for l in ls): return None
        kd = ls[0].args[2].kind; ty = ls[0].args[2].ty
        if any(l.args[2].kind != kd for l in ls): return None
        pay = lambda t: field(t, (1, 0), '0', kd, ty)
        first = pay(subst(nxt, {m: init, k: ZERO}))
        p = fresh('mu', kd, ty); full = T._mk('adt', (init.args[0], 1, p), init.kind, init.ty)
        step = pay(subst(nxt, {m: full, k: add(k, ONE)}))
        if m in free_syms(first) or m in free_syms(step): return None
        rest = None
        if kd in NUM or kd == 'mat':
            d = madd(step, mscale(p, num(-1))) if kd == 'mat' else sub(step, p)
            if p not in free_syms(d) and subst(d, {k: num(-1)}) is first: rest = bsum(k, N, subst(d, {k: sub(k, ONE)}))
        if rest is None: rest = self.reduce(k, sub(N, ONE), p, {p: None}, {p: step}, {p: first}, frozenset([p]))
        return ite(ge(N, ONE), T._mk('adt', (init.args[0], 1, rest), init.kind, init.ty), init)

    def elementwise(self, nxt, m, k, init):
        cell = T._mk('sel', (m, k), nxt.kind)
        def f(l):
            if l is m: return None
            if l.op == 'store' and l.args[0] is m and l.args[1] is k: return l.args[2]
            return False
        if nxt.op == 'ite':
            parts = [f(l) for l in leaves(nxt) if l is not BOT]
            if any(p is False for p in parts): return None
            base = None
            for l in leaves(nxt):
                if l.op == 'store': base = select(init, k, l.args[2].kind, l.args[2].ty)
            el = map_leaves(nxt, lambda l: base if l is m else l.args[2])
        else:
            el = f(nxt)
            if el is None or el is False: return None
        # reads of the cell being updated see the initial value
        memo = {}
        def go(t):
            if t.op == 'sel' and t.args[0] is m and t.args[1] is k: return select(init, k, t.kind, t.ty)
            if m not in free_syms(t): return t
            r = memo.get(t)
            if r is None:
                r = rebuild(t, go); memo[t] = r
            return r
        return go(el)


def mapidx(k, n, base, body):
    if n is seqlen(base) and base.kind != 'mat':
        return seq(k, n, body)
    if n is seqlen(base) and base.kind == 'mat':
        if T.isz(base) and base is not MZERO: return vec_of(n, seq(k, n, body))
        x = fresh('x', body.kind)
        b2 = replace_sel(body, base, k, x)
        if k not in free_syms(b2): return mapm(base, x, b2)
    return closeb('mapidx', (n, base), (k,), (body,), base.kind, base.ty)
T.BINDCANON['mapidx'] = lambda vs, outer, bodies, kind, ty: mapidx(vs[0], outer[0], outer[1], bodies[0])

def replace_sel(body, base, k, x):
    memo = {}
    def go(t):
        if t.op == 'sel' and t.args[0] is base and t.args[1] is k: return x
        if k not in free_syms(t): return t
        r = memo.get(t)
        if r is None:
            r = rebuild(t, go); memo[t] = r
        return r
    return go(body)

def mapm(m, x, body):
    if body is x: return m
    if m.op == 'bind' and m.args[0] == 'mapm':
        op, h, nv, outer, bodies = bind_parts(m)
        y = fresh('x', 'real')
        return mapm(outer[0], y, subst(body, {x: subst_bv(bodies[0], {h: y})}))
    if m.op == 'app' and m.args[0] == 'from_diag' and subst(body, {x: ZERO}) is ZERO:
        return app('from_diag', mapm(m.args[1], x, body), kind='mat')
    if m is MZERO and isnum(body): pass
    return closeb('mapm', (m,), (x,), (body,), 'mat')
T.BINDCANON['mapm'] = lambda vs, outer, bodies, kind, ty: mapm(outer[0], vs[0], bodies[0])

def diff(a, b, path=()):
    """leaf differences between two values"""
    if a is b or b is BOT: return []
    if a.op == b.op == 'adt' and a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
        r = []
        for i, (x, y) in enumerate(zip(a.args[2:], b.args[2:])):
            r += diff(x, y, path + (i,))
        return r
    return [(path, a, b)]

def get(v, path):
    for i in path:
        if v.op == 'adt': v = v.args[2 + i]
        else: return v
    return v

def put(v, path, x):
    if not path: return x
    i = path[0]
    a = list(v.args)
    a[2 + i] = put(a[2 + i], path[1:], x)
    return T._mk('adt', tuple(a), v.kind, v.ty)

ORD = 'core::cmp::Ordering'
OPT = 'core::option::Option'
RES = 'core::result::Result'
def Less(): return adt(ORD, 0)
def Equal(): return adt(ORD, 1)
def Greater(): return adt(ORD, 2)
def Some(x): return adt(OPT, 1, x)
def NoneV(): return adt(OPT, 0)
def Ok(x): return adt(RES, 0, x)
def Err(x): return adt(RES, 1, x)
def is_some(v): return is_variant(v, OPT, 1)
def ordering(a, b, partial):
    """Ordering (or Option<Ordering>) of a against b"""
    if a.kind in NUM and b.kind in NUM:
        l, e, u = cmp_rel(a, b)
        o = ite(l, Less(), ite(e, Equal(), Greater()))
        if not partial: return o
        return ite(u, NoneV(), map_leaves(o, Some))
    r = app('cmp', a, b, ty=None)
    return Some(r) if partial else r

class Call:
    """one call site handed to a library model"""
    def __init__(self, I, name, f, args, st, pc, dty, atys):
        self.I = I; self.name = name; self.f = f; self.args = args; self.st = st
        self.pc = pc; self.dty = dty; self.atys = atys
    def val(self, i): return self.I.deref(self.st, self.args[i])
    def kind(self): return self.I.kind(self.dty)
    def ty(self): return self.I.db.strip(self.dty)
    def setref(self, i, v):
        r = self.args[i]
        while v.op != 'ref':
            # views are references held by value: write through them
            x = self.I.rdloc(self.st, self.I.unref(self.st, r))
            if x.op != 'ref': break
            r = x
        self.I.wrloc(self.st, self.I.unref(self.st, r), v)
    def opaque(self, label=None): return self.I.opaque(self.name, self.f, self.args, self.st, self.pc, self.dty, self.atys, label=label)
    def targ(self, i):
        a = self.f.get('targs', [])
        return self.I.db.ty(a[i]) if i < len(a) else None
