"""Hash-consed value terms: gated values (decision diagrams over atoms), real polynomials, matrix
polynomials, records, guarded lists and binders.  Nothing here executes analysed code."""
from fractions import Fraction
from math import gcd
import sys
sys.setrecursionlimit(200000)

class Node:
    __slots__ = ('id', 'op', 'args', 'kind', 'ty', 'h', 'ites', 'hb', 'fv', '_r', '_hasbv', '_atoms')
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id

_tab = {}
_next = [0]
_byid = {}

def _mk(op, args, kind='other', ty=None):
    key = (op, args)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.id = _next[0]; _next[0] += 1
        n.op = op; n.args = args; n.kind = kind; n.ty = ty
        # binder height, has-ite flag
        h = 0; ites = op == 'ite'; hb = 0
        for a in _kids(n):
            if a.h > h: h = a.h
            if a.hb > hb: hb = a.hb
            if a.ites: ites = True
        if op == 'bv': h = args[0] + 1
        elif op == 'bind' and args[2] + args[3] > hb: hb = args[2] + args[3]
        n.h = h; n.ites = ites; n.hb = hb
        n._r = None; n._hasbv = None; n._atoms = None; n.fv = None
        _tab[key] = n
        _byid[n.id] = n
    elif n.ty is None and ty is not None:
        n.ty = ty
    return n

def _kids(n):
    op = n.op
    if op == 'poly':
        for mono, c in n.args:
            for a, e in mono:
                yield a
    elif op == 'mat':
        for word, c in n.args:
            yield c
            for a in word: yield a
    else:
        for a in n.args:
            if isinstance(a, Node): yield a

def kids(n): return list(_kids(n))

NUM = ('int', 'nat', 'real')

# ---------------------------------------------------------------- leaves
TRUE = _mk('const', (True,), 'bool')
FALSE = _mk('const', (False,), 'bool')
# note: True == 1 in python, so numeric consts carry a tag
BOT = _mk('bot', ())
UNIT = _mk('adt', ('tuple', 0))

def sym(name, kind='other', ty=None):
    return _mk('sym', (name, kind), kind, ty)

def num(v, kind=None):
    if isinstance(v, float):
        if v != v: return _mk('const', ('nan',), 'real')
        if v in (float('inf'), float('-inf')): return _mk('const', ('inf' if v > 0 else '-inf',), 'real')
        v = Fraction(repr(v))
    v = Fraction(v)
    k = 'nat' if v.denominator == 1 and v >= 0 else 'int' if v.denominator == 1 else 'real'
    return _mk('const', ('n', v), k)

def numstr(s):
    if s in ('NaN',): return num(float('nan'))
    if s in ('inf', '-inf'): return num(float(s))
    return num(Fraction(s))

def string(s): return _mk('const', ('s', s), 'str')
def isnum(n): return n.op == 'const' and n.args[0] == 'n'
def numval(n): return n.args[1]
ZERO = num(0); ONE = num(1)

def app(name, *args, kind='other', ty=None):
    """uninterpreted application"""
    f = SIMP.get(name)
    if f is not None:
        r = f(*args)
        if r is not None: return r
    return _mk('app', (name,) + args, kind, ty)

SIMP = {}

def adt(tykey, variant, *fields, ty=None):
    return _mk('adt', (tykey, variant) + fields, 'other', ty)

def adt_fields(n): return n.args[2:]

# ---------------------------------------------------------------- atoms / decision diagrams
def is_leaf(n): return n.op != 'ite'

def _atomvar(atom):
    _famkey(atom)
    return _mk('ite', (atom, TRUE, FALSE), 'bool')

def boolterm(n):
    """turn an opaque boolean-valued term into a decision diagram"""
    if n is TRUE or n is FALSE or n.op == 'ite' or n is BOT: return n
    return _atomvar(n)

_FAM = {}        # family key -> list of atoms seen as decision variables
_ATOMFAM = {}    # atom -> family key or None
def _famkey(var):
    r = _ATOMFAM.get(var, 0)
    if r == 0:
        o = var.op
        r = ('i', var.args[0]) if o == 'ge' else ('r', var.args[0]) if o in ('lt', 'eq') else ('e', var.args[0], var.args[1]) if o == 'is' else None
        _ATOMFAM[var] = r
        if r is not None: _FAM.setdefault(r, []).append(var)
    return r
def _implied(var, val, o):
    """truth of atom o of the same family when var has value val, or None"""
    if var.op == 'ge':
        a, b = var.args[1].args[1], o.args[1].args[1]
        if val: return True if b <= a else None
        return False if b >= a else None
    if var.op == 'is':
        return False if val else None
    a, b = var.args[1].args[1], o.args[1].args[1]
    if var.op == 'lt':
        if val:
            if o.op == 'lt': return True if b >= a else None
            return False if b >= a else None
        if o.op == 'lt': return False if b <= a else None
        return False if b < a else None
    if val:   # eq a
        if o.op == 'eq': return False
        return a < b
    return None
def _mkite(var, hi, lo):
    f = _famkey(var)
    if f is not None:
        for o in _FAM[f]:
            if o is not var and o.id > var.id:
                t = _implied(var, True, o)
                if t is not None: hi = cofactor(hi, o, t)
                t = _implied(var, False, o)
                if t is not None: lo = cofactor(lo, o, t)
        if hi is lo: return hi
        if len(_FAM[f]) > 1:
            a = lo; b = hi
            for o in _FAM[f]:
                if o is not var and o.id > var.id:
                    t = _implied(var, True, o)
                    if t is not None: a = cofactor(a, o, t)
                    t = _implied(var, False, o)
                    if t is not None: b = cofactor(b, o, t)
            if a is hi: return lo
            if b is lo: return hi
    if hi is lo: return hi
    if hi is BOT: return lo
    if lo is BOT: return hi
    if hi.kind == lo.kind: k = hi.kind
    elif hi.kind in NUM and lo.kind in NUM:
        k = 'real' if 'real' in (hi.kind, lo.kind) else 'int'
    else: k = 'other' if hi is not BOT else lo.kind
    return _mk('ite', (var, hi, lo), k, hi.ty if hi.ty is not None else lo.ty)

_ite_memo = {}
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c is BOT: return BOT
    if a is TRUE and b is FALSE: return c
    if a is BOT: return b
    if b is BOT: return a
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None: return r
    if c.op != 'ite':
        c = boolterm(c)
    v = c.args[0]
    if a.op == 'ite' and a.args[0].id < v.id: v = a.args[0]
    if b.op == 'ite' and b.args[0].id < v.id: v = b.args[0]
    def cof(t, s):
        if t.op == 'ite' and t.args[0] is v: return t.args[1] if s else t.args[2]
        return t
    r = _mkite(v, ite(cof(c, 1), cof(a, 1), cof(b, 1)), ite(cof(c, 0), cof(a, 0), cof(b, 0)))
    _ite_memo[key] = r
    return r

def b_not(c): return ite(c, FALSE, TRUE)
def b_and(*cs):
    r = TRUE
    for c in cs: r = ite(r, c, FALSE)
    return r
def b_or(*cs):
    r = FALSE
    for c in cs: r = ite(r, TRUE, c)
    return r
def b_xor(a, b): return ite(a, b_not(b), b)

def map_leaves(n, f, memo=None):
    if n.op != 'ite': return f(n)
    if memo is None: memo = {}
    r = memo.get(n)
    if r is None:
        v, hi, lo = n.args
        a = map_leaves(hi, f, memo); b = map_leaves(lo, f, memo)
        r = ite(_atomvar(v), a, b)
        memo[n] = r
    return r

def leaves(n, out=None, seen=None):
    if out is None: out = []; seen = set()
    if n in seen: return out
    seen.add(n)
    if n.op == 'ite':
        leaves(n.args[1], out, seen); leaves(n.args[2], out, seen)
    else: out.append(n)
    return out

_rs_memo = {}
def care(f, c):
    """simplify diagram f under care set c (Coudert-Madre restrict)"""
    if c is TRUE or f.op != 'ite': return f
    if c is FALSE: return f
    key = (f, c)
    r = _rs_memo.get(key)
    if r is not None: return r
    cv = c.args[0]
    fv = f.args[0]
    if cv is fv:
        if c.args[2] is FALSE: r = care(f.args[1], c.args[1])
        elif c.args[1] is FALSE: r = care(f.args[2], c.args[2])
        else: r = _mkite(fv, care(f.args[1], c.args[1]), care(f.args[2], c.args[2]))
    elif cv.id < fv.id:
        r = care(f, b_or(c.args[1], c.args[2]))
    else:
        r = _mkite(fv, care(f.args[1], c), care(f.args[2], c))
    _rs_memo[key] = r
    return r

# ---------------------------------------------------------------- polynomials
# poly args: tuple of (mono, coef); mono: tuple of (node, exp) sorted by node id
def _pd(n):
    """node -> dict mono->coef"""
    if n.op == 'const' and n.args[0] == 'n':
        return {(): n.args[1]} if n.args[1] != 0 else {}
    if n.op == 'poly': return dict(n.args)
    return {((n, Fraction(1)),): Fraction(1)}

def _kind_of(d):
    k = 'nat'
    for mono, c in d.items():
        if c.denominator != 1: return 'real'
        if c < 0 and k == 'nat': k = 'int'
        for a, e in mono:
            if a.kind not in ('int', 'nat') or e < 0 or e.denominator != 1: return 'real'
            if a.kind == 'int' and k == 'nat': k = 'int'
    return k

def _mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    args = tuple(sorted(d.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]]))
    return _mk('poly', args, _kind_of(d))

SPECIAL = ('nan', 'inf', '-inf')
def _special(*ns):
    return any(n.op == 'const' and n.args[0] in SPECIAL for n in ns)

def add(*ns):
    ns = [n for n in ns]
    if any(n is BOT for n in ns): return BOT
    if any(n.kind == 'mat' for n in ns):
        return madd(*ns)
    d = {}
    for n in ns:
        for m, c in _pd(n).items():
            d[m] = d.get(m, 0) + c
    return _mkpoly(d)

def scale(n, c):
    if n is BOT: return BOT
    c = Fraction(c)
    if n.kind == 'mat': return mscale(n, num(c))
    return _mkpoly({m: k * c for m, k in _pd(n).items()})

def neg(n): return scale(n, -1)
def sub(a, b):
    if a is BOT or b is BOT: return BOT
    if a is b and a.kind != 'mat': return ZERO
    return add(a, neg(b))

def _monomul(m1, m2):
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    coef = Fraction(1)
    out = []
    expand = []
    for a, e in d.items():
        if e == 0: continue
        if isnum(a) and e.denominator == 1 and not (a.args[1] == 0 and e < 0):
            coef *= a.args[1] ** int(e); continue
        if a.op == 'poly' and e > 0 and e.denominator == 1:
            expand.append((a, int(e))); continue
        out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out), coef, expand

def mul(*ns):
    if any(n is BOT for n in ns): return BOT
    mats = [n for n in ns if n.kind == 'mat']
    if mats: return mmul(*ns)
    r = {(): Fraction(1)}
    for n in ns:
        p = _pd(n)
        nr = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                m, k, ex = _monomul(m1, m2)
                if ex:
                    t = _mkpoly({m: c1 * c2 * k})
                    for a, e in ex:
                        for _ in range(e): t = mul(t, a)
                    for mm, cc in _pd(t).items(): nr[mm] = nr.get(mm, 0) + cc
                else:
                    nr[m] = nr.get(m, 0) + c1 * c2 * k
        r = nr
    return _mkpoly(r)

def _root(c, e):
    """exact rational power or None"""
    if c == 0: return Fraction(0) if e > 0 else None
    if e.denominator == 1:
        return c ** int(e)
    q = e.denominator
    def ir(n):
        if n < 0: return None
        r = round(n ** (1.0 / q)) if n < 1 << 50 else int(Fraction(n) ** 1) and None
        if r is None: return None
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** q == n: return x
        return None
    a, b = ir(c.numerator), ir(c.denominator)
    if a is None or b is None or (a == 0 and e < 0): return None
    return Fraction(a, b) ** e.numerator

def power(n, e):
    """n ** e for a constant rational exponent e"""
    e = Fraction(e)
    if n is BOT: return BOT
    if e == 1: return n
    if e == 0: return ONE
    if n.op == 'ite' and False: pass
    if isnum(n):
        r = _root(n.args[1], e)
        if r is not None: return num(r)
        return _mkpoly({((n, e),): Fraction(1)})
    d = _pd(n)
    if len(d) == 1:
        (m, c), = d.items()
        out = ONE
        if c != 1:
            if e.denominator != 1 and c < 0:
                return _mkpoly({((n, e),): Fraction(1)}) if n.op == 'poly' else _mkpoly({((n, e),): Fraction(1)})
            out = power(num(c), e)
        for a, x in m:
            ne = x * e
            if e.denominator != 1 and x.denominator == 1 and x % 2 == 0 and ne % 2 != 0 and a.kind != 'nat':
                a = f_abs(a)
                if a.op == 'poly':   # abs may return a polynomial only for nat arguments
                    out = mul(out, power(a, ne)); continue
            f = _mkpoly({((a, ne),): Fraction(1)})
            out = mul(out, f)
        return out
    # multi-term base
    if e.denominator == 1 and e > 0 and e <= 6:
        out = n
        for _ in range(int(e) - 1): out = mul(out, n)
        return out
    # a factor shared by every term comes out
    ms = [dict(m) for m in d]
    com = {}
    for a in {a for m in ms for a in m}:
        if e.denominator == 1 or a.kind == 'nat':
            x = min(m.get(a, Fraction(0)) for m in ms)
            if x: com[a] = x
    if com:
        rest = _mkpoly({tuple(sorted(((a, x - com.get(a, 0)) for a, x in {**{a: Fraction(0) for a in com}, **dict(m)}.items() if x != com.get(a, 0)), key=lambda t: t[0].id)): c for m, c in d.items()})
        out = power(rest, e)
        for a, x in sorted(com.items(), key=lambda t: t[0].id): out = mul(out, _mkpoly({((a, x * e),): Fraction(1)}))
        return out
    base, c = _content(n)
    out = _mkpoly({((base, e),): Fraction(1)})
    if c != 1:
        if c < 0 and e.denominator != 1:
            return _mkpoly({((n, e),): Fraction(1)})
        out = mul(out, power(num(c), e))
    return out

def _content(n):
    """split poly into normalised poly * rational; leading coefficient 1"""
    d = _pd(n)
    if not d: return n, Fraction(1)
    lead = sorted(d.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]])
    # prefer a non constant leading monomial
    l = [x for x in lead if x[0] != ()] or lead
    c = l[0][1]
    return _mkpoly({m: k / c for m, k in d.items()}), c

def div(a, b):
    if a is BOT or b is BOT: return BOT
    return mul(a, power(b, -1))

def f_abs(n):
    if n is BOT: return BOT
    if isnum(n): return num(abs(n.args[1]))
    if n.kind == 'nat': return n
    if n.op == 'poly' and n.kind == 'real' and any(a.op == 'bind' for m in _pd(n) for a, e in m):
        s = onesign(n)
        if s: return n if s > 0 else neg(n)
    b, c = _content(n)
    if n.op != 'poly': b, c = n, Fraction(1)
    r = _mk('app', ('abs', b), 'real')
    return scale(r, abs(c)) if c not in (1, -1) else r

def toreal(n): return n

def subst_common_denominator_zero(d):
    """is rational function d identically zero?"""
    for _ in range(12):
        if d is ZERO: return True
        p = _pd(d)
        negs = {}
        for m in p:
            for a, e in m:
                if e < 0: negs[a] = min(negs.get(a, 0), e)
        if not negs:
            return d is ZERO
        f = ONE
        for a, e in negs.items():
            q = -e
            if q.denominator != 1:
                q = Fraction(-((-q.numerator) // q.denominator))
            # multiply by a^q : fold exactly
            nd = {}
            for m, c in _pd(d).items():
                x = dict(m)
                x[a] = x.get(a, 0) + q
                ee = x.pop(a)
                t = _mkpoly({tuple(sorted(x.items(), key=lambda y: y[0].id)): c})
                if ee != 0:
                    if ee.denominator == 1 and ee > 0:
                        for _i in range(int(ee)): t = mul(t, a)
                    else:
                        t = mul(t, _mkpoly({((a, ee),): Fraction(1)}))
                for mm, cc in _pd(t).items(): nd[mm] = nd.get(mm, 0) + cc
            d = _mkpoly(nd)
    return d is ZERO

# ---------------------------------------------------------------- matrix polynomials
def _md(n):
    if n.op == 'mat': return dict(n.args)
    return {(n,): ONE}

def _mkmat(d):
    d = {w: c for w, c in d.items() if c is not ZERO}
    zs = [w for w in d if any(a.op == 'app' and a.args[0] == 'zeros' for a in w)]
    if zs:
        # a zero vector remembers its length as long as nothing is added to it
        if len(zs) == len(d):
            z = [w for w in zs if len(w) == 1]
            return min(w[0] for w in z) if z else MZERO
        for w in zs: del d[w]
    if len(d) == 1:
        (w, c), = d.items()
        if c is ONE and len(w) == 1: return w[0]
    return _mk('mat', tuple(sorted(d.items(), key=lambda x: [a.id for a in x[0]])), 'mat')

MZERO = _mk('mat', (), 'mat')

def madd(*ns):
    d = {}
    for n in ns:
        for w, c in _md(n).items():
            d[w] = add(d[w], c) if w in d else c
    return _mkmat(d)

def mscale(n, s):
    return _mkmat({w: mul(c, s) for w, c in _md(n).items()})

def mmul(*ns):
    r = {(): ONE}
    for n in ns:
        if n.kind == 'mat':
            p = _md(n)
            nr = {}
            for w1, c1 in r.items():
                for w2, c2 in p.items():
                    w = w1 + w2
                    c = mul(c1, c2)
                    nr[w] = add(nr[w], c) if w in nr else c
            r = nr
        else:
            r = {w: mul(c, n) for w, c in r.items()}
    return _mkmat(r)

def isz(n): return n is MZERO or n.op == 'app' and n.args[0] == 'zeros'
def transpose(n):
    if n is BOT: return BOT
    if isz(n): return MZERO
    d = {}
    for w, c in _md(n).items():
        nw = tuple((a.args[1] if a.op == 'app' and a.args[0] == 'T' else _mk('app', ('T', a), 'mat')) for a in reversed(w))
        d[nw] = c
    return _mkmat(d)

# ---------------------------------------------------------------- comparisons
def _split_const(p):
    d = _pd(p)
    c = d.pop((), Fraction(0))
    return _mkpoly(d), c

def _intgcd(d):
    g = 0
    for c in d.values(): g = gcd(g, abs(c.numerator))
    return g

def ge0(p, register=False):
    """integer p >= 0"""
    q, c = _split_const(p)
    if q is ZERO: return TRUE if c >= 0 else FALSE
    if p.kind == 'nat': return TRUE
    d = _pd(q)
    # clear denominators, divide by gcd, fix sign
    l = 1
    for k in d.values(): l = l * k.denominator // gcd(l, k.denominator)
    d = {m: k * l for m, k in d.items()}; c = c * l
    g = _intgcd(d)
    d = {m: k / g for m, k in d.items()}
    c = c / g
    q = _mkpoly(d)
    # q + c >= 0  <=>  q >= -c  <=> q >= ceil(-c)
    t = -(c.numerator // c.denominator)
    lead = sorted(d.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]])[0][1]
    if register:
        if lead > 0: LO[q] = max(LO.get(q, t), t)
        else:
            q = _mkpoly({m: -k for m, k in d.items()})
            HI[q] = min(HI.get(q, -t), -t)
        return TRUE
    if lead > 0:
        if q.kind == 'nat' and t <= 0: return TRUE
        if q.kind == 'nat' and q.op != 'poly' and t > UMAX: return FALSE
        return _bounded(q, t)
    q = _mkpoly({m: -k for m, k in d.items()})
    # -q >= t <=> q <= -t <=> not (q >= -t+1)
    if q.kind == 'nat' and 1 - t <= 0: return FALSE
    return b_not(_bounded(q, 1 - t))

# facts: integer forms known to lie in a range (results of checked unsigned subtractions)
LO = {}; HI = {}
def _bounded(q, t):
    l = LO.get(q)
    if l is not None and l >= t: return TRUE
    h = HI.get(q)
    if h is not None and h < t: return FALSE
    if t > UMAX and q.kind == 'nat' and q.op != 'poly': return FALSE
    return _atomvar(_mk('ge', (q, num(t)), 'bool'))
def assume_nonneg(p):
    if p.op != 'ite' and not isnum(p) and p.kind != 'nat': ge0(p, True)

def _lift2(f, a, b):
    """apply f to the leaves of small diagrams (at most 4 leaves each)"""
    return f(a, b)

def constleaves(a):
    ls = leaves(a)
    return len(ls) <= 64 and all(isnum(l) for l in ls)
def cmp_rel(a, b):
    """(lt, eq, un) diagrams for a ? b"""
    if a is BOT or b is BOT: return BOT, BOT, BOT
    if (a.op == 'ite' or b.op == 'ite') and (len(leaves(a)) * len(leaves(b)) <= 12 or constleaves(a) and constleaves(b)):
        if a.op == 'ite' and (b.op != 'ite' or a.args[0].id <= b.args[0].id):
            v = a.args[0]; hi = (a.args[1], b); lo = (a.args[2], b)
            if b.op == 'ite' and b.args[0] is v: hi = (a.args[1], b.args[1]); lo = (a.args[2], b.args[2])
        else:
            v = b.args[0]; hi = (a, b.args[1]); lo = (a, b.args[2])
        c = _atomvar(v)
        h = cmp_rel(*hi); l = cmp_rel(*lo)
        return ite(c, h[0], l[0]), ite(c, h[1], l[1]), ite(c, h[2], l[2])
    isint = a.kind in ('int', 'nat') and b.kind in ('int', 'nat')
    if _special(a) or _special(b):
        def sp(x): return x.args[0] if x.op == 'const' and x.args[0] in SPECIAL else None
        sa, sb = sp(a), sp(b)
        if 'nan' in (sa, sb): return FALSE, FALSE, TRUE
        un = FALSE
        for x in (a, b):
            if sp(x) is None: un = b_or(un, is_nan(x))
        if sa and sb:
            ra = -1 if sa == '-inf' else 1; rb = -1 if sb == '-inf' else 1
            return (TRUE if ra < rb else FALSE), (TRUE if ra == rb else FALSE), FALSE
        x = b if sa else a
        s = sa or sb
        isinf = boolterm(app('is_' + ('pinf' if s == 'inf' else 'ninf'), x, kind='bool'))
        eq = b_and(b_not(un), isinf)
        if isint or x.kind in ('int', 'nat'): eq = FALSE
        lt_if = (s == 'inf' and sb) or (s == '-inf' and sa)
        lt = b_and(b_not(un), b_not(eq)) if lt_if else FALSE
        return lt, eq, un
    if a is b:
        if isint: return FALSE, TRUE, FALSE
        un = is_nan(a)
        return FALSE, b_not(un), un
    p = sub(a, b)
    if p.kind in ('int', 'nat') or isint:
        if isint and p.kind == 'real':
            pass
        lt = b_not(ge0(p))
        le = ge0(neg(p))
        return lt, b_and(le, b_not(lt)), FALSE
    q, c = _split_const(p)
    if q is ZERO:
        return (TRUE if c < 0 else FALSE), (TRUE if c == 0 else FALSE), FALSE
    z = lncmp(q, c)
    if z is not None: return z
    if c == 0 and isint is False:
        u, sg = unsigned(q)
        if u is not q and _pd(u): return cmp_rel(u, ZERO) if sg > 0 else cmp_rel(ZERO, u)
    if q.kind in ('int', 'nat') or intform(q):
        # integer compared with a fraction
        lt = b_not(ge0(p)); le = ge0(neg(p))
        return lt, b_and(le, b_not(lt)), FALSE
    q, k = _content(q)
    t = -c / k
    lt_a = _mk('lt', (q, num(t)), 'bool'); eq_a = _mk('eq', (q, num(t)), 'bool'); un_a = _mk('un', (q,), 'bool')
    un = _atomvar(un_a)
    lt = b_and(b_not(un), _atomvar(lt_a))
    eq = b_and(b_not(un), b_not(_atomvar(lt_a)), _atomvar(eq_a))
    if k < 0:
        lt = b_and(b_not(un), b_not(_atomvar(lt_a)), b_not(_atomvar(eq_a)))
    return lt, eq, un

def intform(q):
    """rational multiple of an integer form"""
    return all(a.kind in ('int', 'nat') and e >= 1 and e.denominator == 1 for m in _pd(q) for a, e in m)
def positive(x):
    d = _pd(x)
    return d.get((), 0) > 0 and all(c > 0 and all(a.kind == 'nat' and e >= 1 and e.denominator == 1 for a, e in m) for m, c in d.items())
def islnpos(a): return a.op == 'app' and a.args[0] == 'ln' and positive(a.args[1])
def lncmp(q, c):
    """the logarithm is increasing: ln x - ln y against 0"""
    if c != 0: return None
    d = _pd(q)
    if len(d) > 2 or not all(len(m) == 1 and m[0][1] == 1 and islnpos(m[0][0]) for m in d): return None
    it = sorted(((m[0][0].args[1], k) for m, k in d.items()), key=lambda x: -x[1])
    if len(it) == 1: x, k = it[0]; y = ONE
    else:
        (x, k), (y, l) = it
        if k != -l: return None
    return cmp_rel(x, y) if k > 0 else cmp_rel(y, x)
def ordinary(x):
    """cannot be NaN: integers, logarithms of positive integers, quotients of these by a sum of one sign"""
    return all((a.kind in ('int', 'nat') or islnpos(a)) and e >= 1 and e.denominator == 1 or e == -1 and onesign(a) for m in _pd(x) for a, e in m)

_SIGN = {}
def onesign(p):
    """the sign of a sum whose terms are comparisons of logarithms: 1 when no term is negative, -1 when none is positive, 0 unknown"""
    r = _SIGN.get(p)
    if r is None:
        _SIGN[p] = 0
        r = _SIGN[p] = _onesign(p)
    return r
def _onesign(p):
    N = None; sums = []; rest = []
    for m, c in _pd(p).items():
        b = [(a, e) for a, e in m if a.op == 'bind' and a.args[0] == 'sum']
        if not b: rest.append((m, c)); continue
        if len(b) > 1 or b[0][1] != 1: return 0
        o, h, nv, outer, bodies = bind_parts(b[0][0])
        if N is None: N = outer[0]
        if N is not outer[0]: return 0
        sums.append((b[0][0], tuple(x for x in m if x[0] is not b[0][0]), c))
    if N is None or N.op == 'ite' or isnum(N): return 0
    dn = _pd(N)
    if len(dn) != 1 or len(list(dn)[0]) != 1 or list(dn.values())[0] != 1: return 0
    na = list(dn)[0][0][0]
    k = fresh('k', 'nat'); B = ZERO
    for s, m, c in sums: B = add(B, mul(_mkpoly({m: c}), open_bind(s, [k])[0]))
    for m, c in rest:
        if not any(a is na and e >= 1 for a, e in m): return 0
        B = add(B, _mkpoly({tuple((a, e - 1 if a is na else e) for a, e in m if not (a is na and e == 1)): c}))
    if B.op == 'ite' or not _pd(B) or not all(islnpos(a) for m in _pd(B) for a, e in m): return 0
    g = lt(k, N)
    if b_and(g, lt(B, ZERO)) is FALSE: return 1
    if b_and(g, lt(ZERO, B)) is FALSE: return -1
    return 0
def unsigned(q):
    """q divided by the sums of one sign all its terms are divided by, and the sign of what was taken out"""
    ms = list(_pd(q))
    com = [a for a, e in ms[0] if e == -1 and a.kind != 'mat' and all((a, e) in m for m in ms)]
    com = [a for a in com if onesign(a)]
    s = 1
    if not com: return q, 1
    for a in com: s *= onesign(a)
    return _mkpoly({tuple(x for x in m if x[0] not in com): c for m, c in _pd(q).items()}), s

def is_nan(x):
    if x.kind in ('int', 'nat'): return FALSE
    if isnum(x) or ordinary(x): return FALSE
    if x.op == 'const' and x.args[0] == 'nan': return TRUE
    if x.op == 'const' and x.args[0] in SPECIAL: return FALSE
    q, c = _split_const(x)
    q, k = _content(q)
    if q.op == 'app' and q.args[0] == 'abs': return is_nan(q.args[1])
    return _atomvar(_mk('un', (q,), 'bool'))

def lt(a, b): return cmp_rel(a, b)[0]
def gt(a, b): return cmp_rel(b, a)[0]
def le(a, b):
    l, e, u = cmp_rel(a, b); return b_or(l, e)
def ge(a, b): return le(b, a)
def absorbs(a, b):
    """x == x + d for reals: a question about rounding, kept as a question about x and d"""
    if a.kind != 'real' or b.kind != 'real' or a.op == 'ite' or b.op == 'ite': return None
    da, db = _pd(a), _pd(b)
    if len(da) > len(db): da, db, a, b = db, da, b, a
    if not da or len(db) <= len(da) or set(da) == {()}: return None
    if any(db.get(m) != c for m, c in da.items()): return None
    return _atomvar(_mk('app', ('absorbs', a, sub(b, a)), 'bool'))
def eq(a, b):
    if a is b and a.kind != 'real': return TRUE
    r = absorbs(a, b)
    if r is not None: return r
    if a.kind in NUM and b.kind in NUM: return cmp_rel(a, b)[1]
    if a is BOT or b is BOT: return BOT
    if a.kind == 'bool' and b.kind == 'bool': return b_not(b_xor(a, b))
    if a.op == 'ite': return map_leaves(a, lambda x: eq(x, b))
    if b.op == 'ite': return map_leaves(b, lambda x: eq(a, x))
    if a.op == 'adt' and b.op == 'adt' and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]: return FALSE
        r = TRUE
        for x, y in zip(a.args[2:], b.args[2:]): r = b_and(r, eq(x, y))
        return r
    if a.op == 'const' and b.op == 'const': return TRUE if a is b else FALSE
    if a.op == 'adt' and b.op != 'adt' and not a.args[2:]:
        return is_variant(b, a.args[0], a.args[1])
    if b.op == 'adt' and a.op != 'adt' and not b.args[2:]:
        return is_variant(a, b.args[0], b.args[1])
    x, y = (a, b) if a.id < b.id else (b, a)
    return _atomvar(_mk('app', ('==', x, y), 'bool'))

def is_variant(x, tykey, v):
    """discriminant test; symbolic leaves become atoms"""
    def f(n):
        if n is BOT: return BOT
        if n.op == 'adt': return TRUE if n.args[1] == v else FALSE
        nv = NVARIANTS.get(tykey)
        if nv == 1: return TRUE
        if nv == 2 and v == 0:
            return b_not(_atomvar(_mk('is', (n, tykey, 1), 'bool')))
        return _atomvar(_mk('is', (n, tykey, v), 'bool'))
    return map_leaves(x, f)

NVARIANTS = {}

# ---------------------------------------------------------------- binders
def bv(h, kind='nat', ty=None):
    if kind in NUM: ty = None
    return _mk('bv', (h, kind, ty if isinstance(ty, (str, int)) else None), kind, ty)

BINDERS = {}   # op -> number of leading non-body args
def binder(op, k, n, *bodies, kind='other', ty=None):
    """close bodies over symbol k (one bound variable)"""
    return closeb(op, (n,), (k,), bodies, kind, ty)

def closeb(op, outer, vars_, bodies, kind='other', ty=None):
    # above every binder inside; variables of binders outside do not matter unless they would be captured
    h = 0; out = set()
    for b in bodies:
        if b.hb > h: h = b.hb
        if b.h > 0: out |= _loose_set_cached(b)
    while any(h <= x < h + len(vars_) for x in out): h += 1
    m = {}
    for i, v in enumerate(vars_):
        m[v] = bv(h + i, v.kind, v.ty)
    bs = tuple(subst(b, m) for b in bodies)
    return _mk('bind', (op, len(outer), h, len(vars_)) + tuple(outer) + bs, kind, ty)

def bind_parts(n):
    op, no, h, nv = n.args[:4]
    return op, h, nv, n.args[4:4 + no], n.args[4 + no:]

def open_bind(n, vals):
    op, h, nv, outer, bodies = bind_parts(n)
    m = {}
    for i, v in enumerate(vals):
        # bound variable may carry different kinds; find by height
        m[h + i] = v
    return [subst_bv(b, m) for b in bodies]

def subst_bv(n, m):
    """replace bound variables by height"""
    if not m: return n
    memo = {}
    lo = min(m)
    def go(t):
        if t.h <= lo: return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'bv': r = m.get(t.args[0], t)
        elif t.op == 'bind' and any(t.args[2] <= x < t.args[2] + t.args[3] for x in m):
            # an inner binder of the same height hides the variable
            m2 = {x: v for x, v in m.items() if not t.args[2] <= x < t.args[2] + t.args[3]}
            no = t.args[1]
            na = t.args[:4] + tuple(go(a) for a in t.args[4:4 + no]) + tuple(subst_bv(b, m2) for b in t.args[4 + no:])
            r = t if na == t.args else rebind(t, na)
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(n)

def free_syms(n):
    if n.fv is None:
        if n.op == 'sym': n.fv = frozenset([n])
        else:
            s = frozenset()
            for a in _kids(n): s |= free_syms(a)
            n.fv = s
    return n.fv

def subst(n, m):
    """replace sub-terms (symbols) by terms"""
    if not m: return n
    memo = {}
    keys = frozenset(m)
    syms_only = all(k.op == 'sym' for k in keys)
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t in m: r = m[t]
        elif syms_only and not (free_syms(t) & keys): r = t
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(n)

REBUILD = {}
def rebuild(n, go):
    op = n.op
    if op in ('const', 'sym', 'bot', 'bv'): return n
    if op == 'ite':
        v = go(n.args[0]); 
        return ite(boolterm(v), go(n.args[1]), go(n.args[2]))
    if op == 'poly':
        parts = []
        changed = False
        for m, c in n.args:
            fs = []
            for a, e in m:
                b = go(a)
                if b is not a: changed = True
                fs.append((a, b, e))
            parts.append((c, fs, m))
        if not changed: return n
        out = []
        for c, fs, m in parts:
            if all(a is b for a, b, e in fs): out.append(_mkpoly({m: c})); continue
            out.append(mul(num(c), *[power(b, e) for a, b, e in fs]))
        return add(*out)
    if op == 'mat':
        out = []
        changed = False
        for w, c in n.args:
            nw = [go(a) for a in w]; nc = go(c)
            if nc is not c or any(x is not y for x, y in zip(nw, w)): changed = True
            out.append((nw, nc))
        if not changed: return n
        if not out: return n
        return madd(*[mmul(c, *w) if w else c for w, c in out]) if out else n
    na = tuple(go(a) if isinstance(a, Node) else a for a in n.args)
    if all(x is y for x, y in zip(na, n.args)): return n
    f = REBUILD.get(op)
    if f: return f(n, na)
    if op == 'app':
        if na[0] == 'T': return transpose(na[1])
        if na[0] == 'abs': return f_abs(na[1])
        if na[0] == '==': return eq(na[1], na[2])
        if na[0] in ('is_pinf', 'is_ninf') and isnum(na[1]): return FALSE
        return app(*na, kind=n.kind, ty=n.ty)
    if op == 'adt': return _mk('adt', na, n.kind, n.ty)
    if op == 'ge': return ge(na[0], na[1])
    if op == 'lt':
        return lt(na[0], na[1])
    if op == 'eq': return eq(na[0], na[1])
    if op == 'un': return is_nan(na[0])
    if op == 'is':
        return is_variant(na[0], na[1], na[2])
    if op == 'fld': return field(na[0], na[1], na[2], n.kind, n.ty)
    if op == 'sel': return select(na[0], na[1], n.kind, n.ty)
    if op == 'store': return store(na[0], na[1], na[2])
    if op == 'chunks': return chunks(na)
    if op == 'ch':
        return _mk('ch', na, n.kind, n.ty)
    if op == 'ref': return _mk('ref', na, n.kind, n.ty)
    if op == 'bind': return rebind(n, na)
    return _mk(op, na, n.kind, n.ty)

BINDCANON = {}
def rebind(n, na):
    op = na[0]
    f = BINDCANON.get(op)
    if f:
        no, h, nv = na[1:4]
        # open with fresh symbols, then canonicalise again
        vs = []
        for i in range(nv):
            kd = 'nat'; ty = None
            for b in na[4 + no:]:
                x = find_bv(b, h + i)
                if x is not None: kd = x.kind; ty = x.ty; break
            vs.append(fresh('r', kd, ty))
        m = {h + i: v for i, v in enumerate(vs)}
        bodies = [subst_bv(b, m) for b in na[4 + no:]]
        return f(vs, na[4:4 + no], bodies, n.kind, n.ty)
    return _mk('bind', na, n.kind, n.ty)

def bound_of(c, k, allmu):
    """exit condition equivalent to k >= N; returns N"""
    if c.op != 'ite': return None
    a, hi, lo = c.args
    fs = free_syms(a)
    if k not in fs and not (fs & allmu):
        # case split on a loop-invariant condition
        x = bound_of(hi, k, allmu); y = bound_of(lo, k, allmu)
        if x is None or y is None: return None
        return ite(_atomvar(a), x, y)
    if a.op != 'ge': return None
    pos = hi is TRUE and lo is FALSE
    negt = hi is FALSE and lo is TRUE
    if not (pos or negt):
        # either of two thresholds, or both
        v = _atomvar(a)
        for x, y, f in ((v, lo, imin if hi is TRUE else None), (b_not(v), hi, imin if lo is TRUE else None),
                        (v, hi, imax if lo is FALSE else None), (b_not(v), lo, imax if hi is FALSE else None)):
            if f is None: continue
            x = bound_of(x, k, allmu); y = bound_of(y, k, allmu)
            if x is None or y is None: continue
            if isnum(x) and isnum(y): return num((min if f is imin else max)(numval(x), numval(y)))
            return f(x, y)
        return None
    p, t = a.args
    d = _pd(p)
    ck = d.get(((k, Fraction(1)),), Fraction(0))
    if abs(ck) != 1: return None
    rest = add(p, mul(num(-ck), k))
    if k in free_syms(rest) or (free_syms(rest) & allmu): return None
    if pos and ck == 1: return sub(t, rest)            # k >= t - rest
    if negt and ck == -1: return add(sub(rest, t), ONE)  # rest - k < t  <=> k >= rest - t + 1
    return None

def mkloop(k, mus, inits, ex, m, nexts, kind, ty):
    """value of m on leaving the recurrence mus := nexts (counted by k), left as soon as ex holds; in normal form"""
    mus = list(mus)
    while True:
        stay = b_not(ex)
        hit = {}
        ms = frozenset(mus) | {k}
        for v in mus:
            nx = care(nexts[v], stay)
            if nx is v: hit[v] = inits[v]
            elif v.kind in NUM and nx.kind in NUM:
                d = sub(nx, v)
                if not d.ites and not (free_syms(d) & ms): hit[v] = add(inits[v], mul(d, k))
            if hit: break
        if not hit: break
        mus = [v for v in mus if v not in hit]
        ex = subst(ex, hit); m = subst(m, hit)
        nexts = {v: subst(nexts[v], hit) for v in mus}
    stay = b_not(ex)
    m = care(m, ex)
    nexts = {v: care(nexts[v], stay) for v in mus}
    need = set(); work = []
    al = set(mus) | {k}
    for t in (ex, m):
        for v in free_syms(t):
            if v in al and v not in need: need.add(v); work.append(v)
    while work:
        v = work.pop()
        if v is k: continue
        for w in free_syms(nexts[v]):
            if w in al and w not in need: need.add(w); work.append(w)
    if ex is TRUE: return subst(m, {k: ZERO, **{v: inits[v] for v in mus}})
    if m.op in ('sym', 'const') and m not in al: return m
    use = sorted((v for v in mus if v in need), key=lambda v: inits[v].id)
    if use and k in need:
        N = bound_of(ex, k, frozenset(use))
        if N is not None and isnum(N) and numval(N) <= 4:
            # a known, small number of rounds
            cur = {v: inits[v] for v in use}
            for i in range(max(0, int(numval(N)))):
                m1 = {k: num(i), **cur}
                cur = {v: subst(nexts[v], m1) for v in use}
            return subst(m, {k: num(max(0, int(numval(N)))), **cur})
    if not use:
        # nothing but the counter decides: left as soon as it reaches the bound
        N = bound_of(ex, k, frozenset())
        if N is not None and N.kind in ('int', 'nat'): return subst(m, {k: N if N.kind == 'nat' else imax(N, ZERO)})
    return closeb('loop', tuple(inits[v] for v in use), tuple(([k] if k in need or m is k else []) + use),
                  (ex, m) + tuple(nexts[v] for v in use), kind, ty)
def _loopcanon(vs, outer, bodies, kind, ty):
    n = len(outer)
    k = vs[0] if len(vs) > n else fresh('k', 'nat')
    mus = vs[len(vs) - n:]
    return mkloop(k, mus, dict(zip(mus, outer)), bodies[0], bodies[1], dict(zip(mus, bodies[2:])), kind, ty)
BINDCANON['loop'] = _loopcanon

def find_bv(n, h):
    st = [n]; seen = set()
    while st:
        t = st.pop()
        if t in seen or t.h <= h: continue
        seen.add(t)
        if t.op == 'bv' and t.args[0] == h: return t
        if t.op == 'bind' and t.args[2] <= h < t.args[2] + t.args[3]: st.extend(t.args[4:4 + t.args[1]])
        else: st.extend(_kids(t))
    return None

_fresh = [0]
def fresh(p, kind='other', ty=None):
    _fresh[0] += 1
    return sym('%s#%d' % (p, _fresh[0]), kind, ty)

# ---------------------------------------------------------------- records
def field(n, key, extra=None, kind='other', ty=None):
    """key: (variant, index); extra: display name"""
    def f(x):
        if x is BOT: return BOT
        if x.op == 'adt':
            if x.args[1] != key[0] and x.args[0] != 'closure': return BOT
            i = 2 + key[1]
            if i < len(x.args): return x.args[i]
            return BOT
        return _mk('fld', (x, key, extra), kind, ty)
    if n.op == 'ite': return map_leaves(n, f)
    return f(n)

def setfield(n, key, v, expand):
    def f(x):
        if x is BOT: x = expand(x, key[0])
        if x.op == 'adt':
            if x.args[1] != key[0] and x.args[0] != 'closure': return x
            a = list(x.args)
            while len(a) <= 2 + key[1]: a.append(BOT)
            a[2 + key[1]] = v
            return _mk('adt', tuple(a), x.kind, x.ty)
        y = expand(x, key[0])
        a = list(y.args)
        while len(a) <= 2 + key[1]: a.append(BOT)
        a[2 + key[1]] = v
        return _mk('adt', tuple(a), y.kind, y.ty)
    if n.op == 'ite': return map_leaves(n, f)
    return f(n)

# ---------------------------------------------------------------- sequences
# chunks(ch(guard,'e',x) | ch(guard,'s',seq) ...)
def ch(guard, k, x): return _mk('ch', (guard, k, x))
def chunks(cs):
    out = []
    for c in cs:
        g, k, x = c.args
        if g is FALSE: continue
        if k == 's':
            if x.op == 'chunks':
                for c2 in x.args:
                    out.append(ch(b_and(g, c2.args[0]), c2.args[1], c2.args[2]))
                continue
            if x.op == 'bind' and x.args[0] == 'seq' and seqlen(x) is ZERO: continue
        out.append(c)
    if len(out) == 1 and out[0].args[0] is TRUE and out[0].args[1] == 's': return out[0].args[2]
    return _mk('chunks', tuple(out), 'seq')
EMPTY = _mk('chunks', (), 'seq')

def aschunks(v):
    if v.op == 'chunks': return list(v.args)
    return [ch(TRUE, 's', v)]

def push(v, x):
    if v.op == 'ite': return map_leaves(v, lambda l: push(l, x))
    return chunks(aschunks(v) + [ch(TRUE, 'e', x)])
def push_front(v, x):
    if v.op == 'ite': return map_leaves(v, lambda l: push_front(l, x))
    return chunks([ch(TRUE, 'e', x)] + aschunks(v))
def concat(a, b):
    if a.op == 'ite': return map_leaves(a, lambda l: concat(l, b))
    if b.op == 'ite': return map_leaves(b, lambda l: concat(a, l))
    return chunks(aschunks(a) + aschunks(b))

def mklist(xs): return chunks([ch(TRUE, 'e', x) for x in xs])

def seq(k, n, body, ty=None):
    """list of body(k) for k in 0..n"""
    # eta: seq(len(v), v[k]) = v
    if body.op == 'sel' and body.args[1] is k and k not in free_syms(body.args[0]) and n is seqlen(body.args[0]):
        return body.args[0]
    if isnum(n) and numval(n) <= 8:
        return mklist([subst(body, {k: num(i)}) for i in range(int(numval(n)))])
    return closeb('seq', (n,), (k,), (body,), 'seq', ty)
BINDCANON['seq'] = lambda vs, outer, bodies, kind, ty: seq(vs[0], outer[0], bodies[0], ty)

def fseq(k, n, guard, body, ty=None):
    if guard is TRUE: return seq(k, n, body, ty)
    if guard is FALSE: return EMPTY
    if isnum(n) and numval(n) <= 8:
        return chunks([ch(subst(guard, {k: num(i)}), 'e', subst(body, {k: num(i)})) for i in range(int(numval(n)))])
    if k not in free_syms(guard) and k not in free_syms(body): pass
    return closeb('fseq', (n,), (k,), (guard, body), 'seq', ty)
isnan = lambda x: is_nan(x)
BINDCANON['fseq'] = lambda vs, outer, bodies, kind, ty: fseq(vs[0], outer[0], bodies[0], bodies[1], ty)

def seqlen(v):
    if v is BOT: return BOT
    if v.op == 'ite': return map_leaves(v, seqlen)
    if v.op == 'chunks':
        r = []
        for c in v.args:
            g, k, x = c.args
            r.append(ite(g, ONE if k == 'e' else seqlen(x), ZERO))
        return add(*r) if r else ZERO
    if v.op == 'bind':
        if v.args[0] == 'seq': return v.args[4]
        if v.args[0] == 'fseq':
            op, h, nv, outer, bodies = bind_parts(v)
            k = fresh('k', 'nat')
            return count(k, outer[0], subst_bv(bodies[0], {h: k}))
        if v.args[0] == 'mapidx':
            return seqlen(v.args[5])
        if v.args[0] == 'flat':
            op, h, nv, outer, bodies = bind_parts(v)
            k = fresh('k', 'nat')
            return bsum(k, outer[0], seqlen(subst_bv(bodies[0], {h: k})))
    if v.op == 'store': return seqlen(v.args[0])
    if v.op == 'app' and v.args[0] in ('sorted', 'reversed', 'swap'): return seqlen(v.args[1])
    if v.op == 'app' and v.args[0] == 'elem_n': return v.args[2]
    if v.op == 'app' and v.args[0] == 'zeros': return v.args[1]
    if v.op == 'app' and v.args[0] == 'truncate':
        return imin(seqlen(v.args[1]), v.args[2])
    if v.op == 'app' and v.args[0] == 'subseq':
        return v.args[3]
    return LENHOOK[0](v) if LENHOOK[0] else _mk('app', ('len', v), 'nat')
LENHOOK = [None]

def _idivrem(a, b):
    """(quotient, remainder) of a natural linear form with all variable parts divisible, else None"""
    if not isnum(b) or numval(b) <= 0 or numval(b).denominator != 1 or a.kind not in ('nat', 'int', 'poly') and a.op != 'poly': return None
    if a.op not in ('poly', 'const'): return None
    p, c = _split_const(a)
    if c.denominator != 1: return None
    n = numval(b)
    d = _pd(p)
    if any((k / n).denominator != 1 for k in d.values()): return None
    q = c.numerator // n.numerator
    return add(scale(p, Fraction(1) / n), num(q)), num(c.numerator - q * n.numerator)
_TINY, _HUGE = Fraction(2) ** -1022, Fraction(2) ** 1024
def _cls(f): return lambda x: (TRUE if f(abs(numval(x))) else FALSE) if isnum(x) else None
SIMP['is_normal'] = _cls(lambda v: _TINY <= v < _HUGE)
SIMP['is_finite'] = _cls(lambda v: v < _HUGE)
SIMP['is_infinite'] = _cls(lambda v: v >= _HUGE)
SIMP['is_subnormal'] = _cls(lambda v: 0 < v < _TINY)
SIMP['idiv'] = lambda a, b: a if b is ONE else (_idivrem(a, b) or (None,))[0]
SIMP['irem'] = lambda a, b: ZERO if b is ONE else (_idivrem(a, b) or (None, None))[1]

def is_empty(v):
    if v.op == 'ite': return map_leaves(v, is_empty)
    if v.op == 'chunks':
        r = TRUE
        for c in v.args:
            g, k, x = c.args
            r = b_and(r, b_not(g) if k == 'e' else b_or(b_not(g), is_empty(x)))
        return r
    return eq(seqlen(v), ZERO)
SIMP['len'] = lambda v: seqlen(v) if v.op in ('ite', 'chunks', 'bind', 'store') or (v.op == 'app' and v.args[0] in ('sorted', 'reversed', 'truncate', 'subseq', 'elem_n')) else None

UMAX = 2 ** 64 - 1
def imin(a, b):
    if a.kind in ('int', 'nat') and b.kind in ('int', 'nat'):
        # no machine integer is larger
        if isnum(a) and numval(a) >= UMAX: return b
        if isnum(b) and numval(b) >= UMAX: return a
    return ite(ge(b, a), a, b)
def imax(a, b): return ite(ge(a, b), a, b)

def select(v, i, kind='other', ty=None):
    if v is BOT: return BOT
    if v.op == 'ite': return map_leaves(v, lambda l: select(l, i, kind, ty))
    if v.op == 'chunks':
        if 1 < len(v.args) <= 4 and all(c.args[0] is TRUE for c in v.args) and i.kind in ('nat', 'int'):
            # element by position; the last chunk takes what remains
            off = ZERO; parts = []
            for c in v.args:
                end = add(off, ONE if c.args[1] == 'e' else seqlen(c.args[2]))
                parts.append((lt(i, end), c.args[2] if c.args[1] == 'e' else (lambda x=c.args[2], o=off: select(x, sub(i, o), kind, ty))))
                off = end
            r = parts[-1][1]
            r = r() if callable(r) else r
            for g, x in reversed(parts[:-1]):
                if g is FALSE: continue
                r = ite(g, x() if callable(x) else x, r)
            return r
        off = ZERO
        # all chunks unguarded up to the wanted one
        for c in v.args:
            g, k, x = c.args
            if g is not TRUE: break
            if k == 'e':
                e = eq(i, off)
                if e is TRUE: return x
                if e is not FALSE: break
                off = add(off, ONE)
            else:
                n = seqlen(x)
                j = sub(i, off)
                inr = b_and(ge(j, ZERO), lt(j, n))
                if inr is TRUE: return select(x, j, kind, ty)
                if len(v.args) == 1: return select(x, j, kind, ty)
                if isnum(i) or inr is not FALSE: break
                off = add(off, n)
    if v.op == 'bind' and v.args[0] == 'seq':
        op, h, nv, outer, bodies = bind_parts(v)
        return subst_bv(bodies[0], {h: i})
    if v.op == 'bind' and v.args[0] == 'mapidx':
        # mapidx(n, base, body): entries below n replaced
        op, h, nv, outer, bodies = bind_parts(v)
        return ite(lt(i, outer[0]), subst_bv(bodies[0], {h: i}), select(outer[1], i, kind, ty))
    if v.op == 'app' and v.args[0] == 'elem_n': return v.args[1]
    if v.op == 'app' and v.args[0] == 'reversed':
        return select(v.args[1], sub(sub(seqlen(v.args[1]), ONE), i), kind, ty)
    if v.op == 'app' and v.args[0] == 'subseq':
        return select(v.args[1], add(v.args[2], i), kind, ty)
    if v.op == 'app' and v.args[0] == 'truncate':
        return select(v.args[1], i, kind, ty)
    if v.op == 'store':
        e = eq(v.args[1], i)
        return ite(e, v.args[2], select(v.args[0], i, kind, ty)) if e is not FALSE else select(v.args[0], i, kind, ty)
    return _mk('sel', (v, i), kind, ty)

def store(v, i, x):
    if v.op == 'ite': return map_leaves(v, lambda l: store(l, i, x))
    if v.op == 'chunks' and isnum(i) and all(c.args[0] is TRUE and c.args[1] == 'e' for c in v.args) and numval(i) < len(v.args):
        a = list(v.args); a[int(numval(i))] = ch(TRUE, 'e', x)
        return chunks(a)
    if v.op == 'store' and v.args[1] is i: return store(v.args[0], i, x)
    if x.op == 'sel' and x.args[0] is v and x.args[1] is i or v.kind == 'mat' and v.op != 'store' and x is select(v, i, x.kind, x.ty): return v
    return _mk('store', (v, i, x), v.kind, v.ty)

# ---------------------------------------------------------------- reductions
def bsum(k, n, body):
    """sum of body(k) for k in 0..n (numbers or matrices), linear parts extracted"""
    if body is BOT: return BOT
    if isnum(n) and numval(n) <= 4:
        r = [subst(body, {k: num(i)}) for i in range(int(numval(n)))]
        return add(*r) if r else (MZERO if body.kind == 'mat' else ZERO)
    if body.op == 'ite' and body.args[0] is not None and k not in free_syms(body.args[0]):
        return ite(_atomvar(body.args[0]), bsum(k, n, body.args[1]), bsum(k, n, body.args[2]))
    if body.op == 'ite' and body.kind != 'mat' and body.args[0].op == 'ge':
        # a prefix and the rest: the sum splits
        at = body.args[0]; d = dict(_pd(at.args[0])); km = ((k, Fraction(1)),)
        c = d.pop(km, 0)
        r = _mkpoly(d)
        if c in (1, -1) and k not in free_syms(r):
            lo, a, b = (sub(at.args[1], r), body.args[2], body.args[1]) if c == 1 else (add(sub(r, at.args[1]), ONE), body.args[1], body.args[2])
            def cut(l):
                return add(bsum(k, l, a), bsum(k, sub(n, l), subst(b, {k: add(k, l)})))
            return map_leaves(imin(imax(lo, ZERO), n), cut)
    if body.kind == 'mat':
        d = MZERO
        for w, c in _md(body).items():
            inv = [k not in free_syms(a) for a in w]
            i = 0
            while i < len(w) and inv[i]: i += 1
            if i == len(w):
                d = madd(d, mmul(bsum(k, n, c), *w)); continue
            j = len(w)
            while j > i and inv[j - 1]: j -= 1
            for cm, cc in _pd(c).items():
                cin = [(a, e) for a, e in cm if k not in free_syms(a)]
                cdep = [(a, e) for a, e in cm if k in free_syms(a)]
                b = mmul(_mkpoly({tuple(cdep): Fraction(1)}), *w[i:j])
                s = closeb('sum', (n,), (k,), (b,), 'mat')
                d = madd(d, mmul(_mkpoly({tuple(cin): cc}), *w[:i], s, *w[j:]))
        return d
    out = []
    for m, c in _pd(body).items():
        cin = tuple((a, e) for a, e in m if k not in free_syms(a))
        cdep = tuple((a, e) for a, e in m if k in free_syms(a))
        if not cdep:
            out.append(mul(_mkpoly({cin: c}), n)); continue
        b = _mkpoly({cdep: Fraction(1)})
        s = closeb('sum', (n,), (k,), (b,), b.kind)
        out.append(mul(_mkpoly({cin: c}), s))
    return add(*out) if out else ZERO
BINDCANON['sum'] = lambda vs, outer, bodies, kind, ty: bsum(vs[0], outer[0], bodies[0])

def count(k, n, guard):
    return bsum(k, n, ite(guard, ONE, ZERO))

def bany(k, n, guard):
    if guard is FALSE: return FALSE
    if guard is BOT: return BOT
    if guard.op == 'ite' and k not in free_syms(guard):
        return b_and(guard, ge(n, ONE))
    if isnum(n) and numval(n) <= 6:
        return b_or(*[subst(guard, {k: num(i)}) for i in range(int(numval(n)))])
    # pull out invariant top atom
    a = [x for x in diagram_atoms(guard) if k not in free_syms(x)]
    if a:
        v = a[0]
        return ite(_atomvar(v), bany(k, n, cofactor(guard, v, True)), bany(k, n, cofactor(guard, v, False)))
    if guard is TRUE: return ge(n, ONE)
    return _atomvar(closeb('any', (n,), (k,), (guard,), 'bool'))
def ball(k, n, guard): return b_not(bany(k, n, b_not(guard)))
BINDCANON['any'] = lambda vs, outer, bodies, kind, ty: bany(vs[0], outer[0], bodies[0])

def bfirst(k, n, guard):
    """smallest k < n with guard(k)"""
    return closeb('first', (n,), (k,), (guard,), 'nat')

def diagram_atoms(d):
    out = []; seen = set()
    st = [d]
    while st:
        t = st.pop()
        if t in seen or t.op != 'ite': continue
        seen.add(t)
        if t.args[0] not in out: out.append(t.args[0])
        st.append(t.args[1]); st.append(t.args[2])
    return sorted(out)

_cof_memo = {}
def cofactor(d, v, val, memo=None):
    if d.op != 'ite' or d.args[0].id > v.id: return d
    if d.args[0] is v: return d.args[1] if val else d.args[2]
    key = (d, v, val)
    r = _cof_memo.get(key)
    if r is None:
        r = _mkite(d.args[0], cofactor(d.args[1], v, val), cofactor(d.args[2], v, val))
        _cof_memo[key] = r
    return r

# ---------------------------------------------------------------- printing
def show(n, depth=0, maxd=40):
    op = n.op
    if depth > maxd: return '…'
    s = lambda x: show(x, depth + 1, maxd) if isinstance(x, Node) else str(x)
    if op == 'const':
        if n is TRUE: return 'true'
        if n is FALSE: return 'false'
        if n.args[0] == 'n':
            v = n.args[1]
            if v.denominator == 1: return str(v.numerator)
            f = float(v)
            return repr(f)
        if n.args[0] == 's': return repr(n.args[1])
        return str(n.args[0])
    if op == 'bot': return '⊥'
    if op == 'sym': return n.args[0].split('#')[-1] if '::' in n.args[0] else n.args[0]
    if op == 'bv': return '$%d' % n.args[0]
    if op == 'ite':
        if n.args[1] is TRUE and n.args[2] is FALSE: return s(n.args[0])
        if n.args[1] is FALSE and n.args[2] is TRUE: return '!' + s(n.args[0])
        if n.args[2] is FALSE: return '(%s && %s)' % (s(n.args[0]), s(n.args[1]))
        if n.args[1] is TRUE: return '(%s || %s)' % (s(n.args[0]), s(n.args[2]))
        return '(%s ? %s : %s)' % (s(n.args[0]), s(n.args[1]), s(n.args[2]))
    if op == 'poly':
        out = []
        for m, c in n.args:
            f = '*'.join(s(a) + ('' if e == 1 else '^%s' % e) for a, e in m)
            if not m: out.append(s(num(c)))
            elif c == 1: out.append(f)
            elif c == -1: out.append('-' + f)
            else: out.append(s(num(c)) + '*' + f)
        return '(' + ' + '.join(out) + ')'
    if op == 'mat':
        out = []
        for w, c in n.args:
            f = '·'.join(s(a) for a in w)
            out.append(f if c is ONE else s(c) + '*' + f)
        return '{' + ' + '.join(out) + '}'
    if op == 'fld':
        return '%s.%s' % (s(n.args[0]), n.args[2] if n.args[2] is not None else n.args[1][1])
    if op == 'sel': return '%s[%s]' % (s(n.args[0]), s(n.args[1]))
    if op == 'ge': return '(%s >= %s)' % (s(n.args[0]), s(n.args[1]))
    if op == 'lt': return '(%s < %s)' % (s(n.args[0]), s(n.args[1]))
    if op == 'eq': return '(%s == %s)' % (s(n.args[0]), s(n.args[1]))
    if op == 'un': return 'isnan(%s)' % s(n.args[0])
    if op == 'is':
        return '%s is %s' % (s(n.args[0]), VNAMES.get((n.args[1], n.args[2]), '%s#%d' % (str(n.args[1]).split('::')[-1], n.args[2])))
    if op == 'adt':
        nm = VNAMES.get((n.args[0], n.args[1]), None)
        nm = nm or (str(n.args[0]).split('::')[-1])
        if n.args[0] == 'tuple': nm = ''
        fs = n.args[2:]
        names = FNAMES.get((n.args[0], n.args[1]))
        if not fs and nm: return nm
        if names and len(names) == len(fs) and not names[0].isdigit():
            return nm + '{' + ', '.join('%s: %s' % (a, s(b)) for a, b in zip(names, fs)) + '}'
        return nm + '(' + ', '.join(s(a) for a in fs) + ')'
    if op == 'app':
        return '%s(%s)' % (str(n.args[0]).split('::')[-1] if False else n.args[0], ', '.join(s(a) for a in n.args[1:]))
    if op == 'chunks':
        return '[' + ', '.join(s(c) for c in n.args) + ']'
    if op == 'ch':
        g, k, x = n.args
        return ('' if g is TRUE else 'if %s: ' % s(g)) + ('' if k == 'e' else '*') + s(x)
    if op == 'bind':
        o, h, nv, outer, bodies = bind_parts(n)
        return '%s[%s](%s; %s)' % (o, ','.join('$%d' % (h + i) for i in range(nv)), ', '.join(s(x) for x in outer), ', '.join(s(x) for x in bodies))
    return '%s(%s)' % (op, ', '.join(s(a) for a in n.args))
VNAMES = {}
FNAMES = {}

# ---------------------------------------------------------------- restriction by cases, equivalence
def atoms_of(n):
    """all decision atoms in n that are not under a binder capturing them (nested ones included)"""
    if n._atoms is not None: return n._atoms
    if not n.ites:
        n._atoms = frozenset(); return n._atoms
    out = set()
    if n.op == 'ite':
        out.add(n.args[0])
    for a in _kids(n): out |= atoms_of(a)
    n._atoms = frozenset(out)
    return n._atoms

def loose(n):
    """atom mentions a bound variable"""
    return n.h > 0 and _has_loose(n)
def _has_loose(n):
    if n._hasbv is None:
        n._hasbv = _loose_set(n)
    return bool(n._hasbv)
def _loose_set(n):
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.h == 0: r = frozenset()
        elif t.op == 'bv': r = frozenset([t.args[0]])
        else:
            r = frozenset()
            if t.op == 'bind':
                no, h, nv = t.args[1:4]
                for a in t.args[4 + no:]: r |= go(a)
                r = frozenset(x for x in r if not (h <= x < h + nv))
                for a in t.args[4:4 + no]: r |= go(a)
            else:
                for a in _kids(t): r |= go(a)
        memo[t] = r
        return r
    return go(n)

def family(a):
    if a.op == 'ge': return ('int', a.args[0])
    if a.op in ('lt', 'eq', 'un'): return ('real', a.args[0])
    if a.op == 'is': return ('enum', a.args[0], a.args[1])
    return ('bool', a)

def evident_nonneg(p):
    """a sum of products of norms, absolute values, exponentials, counts and even powers is never below zero"""
    return bool(_pd(p)) and all(c > 0 and all(a.kind == 'nat' or a.op == 'app' and a.args[0] in ('norm', 'abs', 'exp', 'sqrt') or a.kind in ('int', 'real') and (
        Fraction(e).denominator % 2 == 0 or Fraction(e).numerator % 2 == 0) for a, e in m) for m, c in _pd(p).items())

def regions(fam, atoms):
    """list of (label, {atom: bool}, value or None) covering the family"""
    if fam[0] == 'bool':
        a = fam[1]
        return [(show(a, maxd=6), {a: True}, None), ('!' + show(a, maxd=6), {a: False}, None)]
    if fam[0] == 'int':
        ts = sorted(set(numval(a.args[1]) for a in atoms))
        out = []
        for i in range(len(ts) + 1):
            asg = {a: (ts.index(numval(a.args[1])) < i) for a in atoms}
            lo = None if i == 0 else ts[i - 1]; hi = None if i == len(ts) else ts[i] - 1
            if fam[1].kind == 'nat' and hi is not None and hi < 0: continue
            lab = '%s in [%s,%s]' % (show(fam[1], maxd=6), '-inf' if lo is None else lo, 'inf' if hi is None else hi)
            if lo is None and hi is not None:          # what the analysed code has already relied on
                if ge(fam[1], num(hi + 1)) is TRUE: continue
                if ge(fam[1], num(hi)) is TRUE: lo = hi
            if fam[1].kind == 'nat' and lo is None: lo = 0
            out.append((lab, asg, hi if lo is not None and lo == hi else None))
        return out
    if fam[0] == 'real':
        ts = sorted(set(numval(a.args[1]) for a in atoms if a.op != 'un'))
        out = []
        p = show(fam[1], maxd=6); nn = evident_nonneg(fam[1])
        un = [a for a in atoms if a.op == 'un']
        if fam[1].kind == 'real':
            asg = {a: a.op == 'un' for a in atoms}
            out.append(('%s is NaN' % p, asg, None))
        for i in range(len(ts) + 1):
            if nn and i < len(ts) and ts[i] < 0: continue
            # open interval below ts[i]
            asg = {}
            for a in atoms:
                if a.op == 'un': asg[a] = False
                elif a.op == 'eq': asg[a] = False
                else: asg[a] = ts.index(numval(a.args[1])) >= i
            if not (nn and i < len(ts) and ts[i] <= 0):
                out.append(('%s in (%s,%s)' % (p, '-inf' if i == 0 else float(ts[i - 1]), 'inf' if i == len(ts) else float(ts[i])), asg, None))
            if i < len(ts):
                asg = {}
                for a in atoms:
                    if a.op == 'un': asg[a] = False
                    elif a.op == 'eq': asg[a] = numval(a.args[1]) == ts[i]
                    else: asg[a] = numval(a.args[1]) > ts[i]
                out.append(('%s = %s' % (p, float(ts[i])), asg, ts[i]))
        return out
    if fam[0] == 'enum':
        nv = NVARIANTS.get(fam[2])
        vs = list(range(nv)) if nv else sorted(set(a.args[2] for a in atoms)) + [None]
        out = []
        for v in vs:
            out.append(('%s is %s' % (show(fam[1], maxd=6), VNAMES.get((fam[2], v), v)), {a: a.args[2] == v for a in atoms}, None))
        return out

def restrict(n, asg):
    memo = {}
    keys = frozenset(asg)
    def go(t):
        if not t.ites: return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'ite' and t.args[0] in asg:
            r = go(t.args[1] if asg[t.args[0]] else t.args[2])
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(n)

_dn = {}
def dropnan(t):
    """remove unordered-comparison cases everywhere (also below binders)"""
    def go(n):
        if not n.ites: return n
        r = _dn.get(n)
        if r is None:
            if n.op == 'ite' and n.args[0].op == 'un': r = go(n.args[2])
            else: r = rebuild(n, go)
            _dn[n] = r
        return r
    return go(t)

_dz = {}
def dropzeros(t):
    """forget the lengths of zero vectors"""
    def go(n):
        if n.op in ('const', 'sym', 'bot', 'bv'): return n
        r = _dz.get(n)
        if r is None:
            r = MZERO if isz(n) else rebuild(n, go)
            _dz[n] = r
        return r
    return go(t)

# greatest / least element of a sequence (ordinary numbers)
def extreme(big, v):
    if v.op == 'ite': return map_leaves(v, lambda l: extreme(big, l))
    if v.op == 'app' and v.args[0] in ('diag', 'mapm', 'vec_of') or v.op == 'bind' and v.args[0] in ('mapm',):
        k = fresh('k', 'nat')
        v = seq(k, seqlen(v), select(v, k, 'real'))
    return app('maxelem' if big else 'minelem', v, kind='real')
def _sx(nm):
    def f(v):
        r = s_extreme(v)
        return None if r is None else app(nm, r, kind='real')
    return f
for _n in ('maxelem', 'minelem'): SIMP[_n] = _sx(_n)
def natural_order(fn):
    """+1 for the numeric order, -1 for its reverse, 0 otherwise"""
    op, h, nv, outer, bodies = bind_parts(fn)
    if outer or nv != 2: return 0
    a = fresh('a', 'real'); b = fresh('b', 'real')
    body = dropnan(subst_bv(bodies[0], {h: a, h + 1: b}))
    return body, a, b
def fold_extreme(k, N, m, nxt, init):
    """a running maximum or minimum, or None"""
    body = dropnan(nxt)
    if body.op != 'ite': return None
    xs = [l for l in leaves(body) if l is not m and l is not BOT]
    if len(xs) != 1 or m in free_syms(xs[0]): return None
    x = xs[0]
    for big in (True, False):
        a, b = (m, x) if big else (x, m)
        if any(body is dropnan(t) for t in (ite(lt(a, b), x, m), ite(le(a, b), x, m), ite(lt(b, a), m, x), ite(le(b, a), m, x))):
            s = seq(k, N, x)
            if init.op == 'const' and init.args[0] == ('-inf' if big else 'inf'): return extreme(big, s)
            # the first element as the start
            y = subst(x, {k: sub(k, ONE)})
            if subst(y, {k: ZERO}) is init: return extreme(big, seq(k, add(N, ONE), y))
            return extreme(big, chunks([ch(TRUE, 'e', init), ch(TRUE, 's', s)]))
    return None
def s_extreme(v):
    # [x(0), x(1), ...]: one sequence
    if v.op == 'chunks' and len(v.args) == 2 and v.args[0].args[0] is TRUE and v.args[1].args[0] is TRUE and v.args[0].args[1] == 'e' and v.args[1].args[1] == 's':
        x = v.args[0].args[2]; q = v.args[1].args[2]
        if q.op == 'bind' and q.args[0] == 'seq':
            op, h, nv, outer, bodies = bind_parts(q)
            k = fresh('k', 'nat'); y = subst_bv(bodies[0], {h: sub(k, ONE)})
            if subst(y, {k: ZERO}) is x: return seq(k, add(outer[0], ONE), y)
    if v.op == 'chunks' and len(v.args) > 1:      # in whatever order
        r = chunks(sorted(set(v.args), key=lambda x: (x.args[1] != 'e', x.id)))
        if r is not v: return r
    return None

def _round(nm):
    import math
    def f(x):
        if isnum(x):
            v = numval(x)
            return num({'ceil': math.ceil(v), 'floor': math.floor(v), 'trunc': int(v), 'round': int(v + Fraction(1, 2)) if v >= 0 else -int(-v + Fraction(1, 2))}[nm])
        if x.kind in ('int', 'nat'): return x
        if x.op == 'ite' and not x.args[0].op == 'un': return map_leaves(x, lambda l: BOT if l is BOT else app(nm, l, kind='real'))
    return f
for _n in ('ceil', 'floor', 'trunc', 'round'): SIMP[_n] = _round(_n)
def _toint(x):
    if isnum(x) or x.kind in ('int', 'nat'): return x if not isnum(x) or numval(x) >= 0 else None
    if x.op == 'ite': return map_leaves(x, lambda l: BOT if l is BOT else app('toint', l, kind='nat'))
SIMP['toint'] = _toint

class Budget(Exception): pass

class Equiv:
    def __init__(self, limit=60000):
        self.memo = {}
        self.limit = limit
        self.n = 0

    def check(self, a, b, depth=0):
        """None if equal on every case, else (cases, a', b')"""
        if a is b or a is BOT or b is BOT: return None
        key = (a, b)
        if key in self.memo: return self.memo[key]
        self.n += 1
        if self.n > self.limit: raise Budget()
        r = self._check(a, b, depth)
        self.memo[key] = r
        return r

    def _check(self, a, b, depth):
        # structural descent first (sufficient)
        if a.op == b.op == 'adt' and a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
            for x, y in zip(a.args[2:], b.args[2:]):
                if isinstance(x, Node):
                    r = self.check(x, y, depth)
                    if r is not None: return r
            return None
        if a.op != 'ite' and b.op != 'ite' and a.op == b.op and a.op in ('app', 'fld', 'sel', 'store', 'bind', 'ge', 'lt', 'eq', 'un', 'is', 'ref', 'chunks', 'ch'):
            if self._struct(a, b, depth): return None
        ats = [x for x in atoms_of(a) | atoms_of(b)]
        # only atoms free of variables bound inside a or b
        la = _loose_set_cached(a) | _loose_set_cached(b)
        cand = [x for x in ats if _loose_set_cached(x) <= la]
        if cand:
            # innermost first: atoms whose own terms contain no further atoms
            pure = [x for x in cand if not x.ites] or cand
            # prefer the top variables of the two diagrams
            tops = [t.args[0] for t in (a, b) if t.op == 'ite' and t.args[0] in pure]
            at = min(tops) if tops else min(pure)
            fam = family(at)
            grp = [x for x in ats if family(x) == fam]
            for lab, asg, _ in regions(fam, grp):
                ra, rb = restrict(a, asg), restrict(b, asg)
                r = self.check(ra, rb, depth + 1)
                if r is not None:
                    return ([lab] + r[0], r[1], r[2])
            return None
        # no more cases
        if self._leaf_equal(a, b, depth): return None
        return ([], a, b)

    def _struct(self, a, b, depth):
        if len(a.args) != len(b.args): return False
        if a.op == 'bind' and a.args[2] != b.args[2] and a.args[:2] == b.args[:2] and a.args[3] == b.args[3]:
            no, nv = a.args[1], a.args[3]
            if any(self.check(x, y, depth + 1) is not None for x, y in zip(a.args[4:4 + no], b.args[4:4 + no])): return False
            vs = []
            for i in range(nv):
                x = None
                for t in (a, b):
                    for q in t.args[4 + no:]: x = x or find_bv(q, t.args[2] + i)
                vs.append(fresh('b', x.kind if x else 'nat', x.ty if x else None))
            return all(self.check(x, y, depth + 1) is None for x, y in zip(open_bind(a, vs), open_bind(b, vs)))
        for x, y in zip(a.args, b.args):
            if isinstance(x, Node) != isinstance(y, Node): return False
            if isinstance(x, Node):
                if self.check(x, y, depth + 1) is not None: return False
            elif x != y: return False
        return True

    def _leaf_equal(self, a, b, depth):
        if a.kind in NUM and b.kind in NUM:
            if subst_common_denominator_zero(sub(a, b)): return True
            # unify binder / application factors
            nb = self._unify(a, b, depth)
            if nb is not b:
                if a is nb: return True
                return subst_common_denominator_zero(sub(a, nb))
            return False
        if a.kind == 'mat' and b.kind == 'mat':
            nb = self._unify(a, b, depth)
            if nb is a: return True
            d = madd(a, mscale(nb, num(-1)))
            return all(subst_common_denominator_zero(c) for w, c in _md(d).items()) if d.op == 'mat' else False
        if a.op == b.op == 'chunks' and len(a.args) == len(b.args):
            return all(x.args[1] == y.args[1] and self.check(x.args[0], y.args[0], depth) is None and
                       self.check(x.args[2], y.args[2], depth) is None for x, y in zip(a.args, b.args))
        return False

    def _unify(self, a, b, depth):
        fa = set(_factors(a)); fb = set(_factors(b))
        m = {}
        for y in fb - fa:
            for x in fa - fb:
                if x.op == y.op and x.op in ('bind', 'app', 'sel', 'fld', 'poly') and x.kind == y.kind or (x.op == y.op == 'app'):
                    if x.op == 'app' and x.args[0] != y.args[0]: continue
                    if x.op == 'bind' and x.args[0] != y.args[0]: continue
                    if self.check(x, y, depth + 1) is None:
                        m[y] = x; break
        return subst(b, m) if m else b

def _factors(n):
    if n.op == 'poly':
        for mono, c in n.args:
            for a, e in mono: yield a
    elif n.op == 'mat':
        for w, c in n.args:
            for a in w: yield a
            yield from _factors(c)
    else: yield n

def _loose_set_cached(n):
    if n._hasbv is None: n._hasbv = _loose_set(n)
    return n._hasbv

def leafset(n):
    """footprint: symbols, fields, numeric constants, operators"""
    out = set(); seen = set(); st = [n]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'sym' : out.add(('sym', t.args[0].split('#')[0]))
        elif t.op == 'const' and t.args[0] == 'n' and t.args[1] not in (0, 1): out.add(('c', t.args[1]))
        elif t.op == 'const' and t.args[0] == 's': out.add(('s', t.args[1]))
        elif t.op == 'fld': out.add(('fld', t.args[2]))
        elif t.op == 'app': out.add(('app', t.args[0]))
        elif t.op == 'adt': out.add(('adt', t.args[0], t.args[1]))
        elif t.op == 'poly':
            for m, c in t.args:
                if abs(c) != 1: out.add(('c', abs(c)))
                for a, e in m:
                    if e not in (1,): out.add(('e', e))
        st.extend(_kids(t))
    return out
