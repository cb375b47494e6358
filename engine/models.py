"""Models of the library operations the crate uses (values only; effects are recorded as events)."""
from fractions import Fraction
from terms import *
import terms as T
from interp import *
import interp as IP

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

def lookup(I, name, f, args):
    m = M.get(name)
    if m is not None: return m
    p = (f.get('r') or f)['p']
    m = M.get(p) or M.get(f['p'])
    if m is not None: return m
    if name.startswith('Iterator::') or name.startswith('ParallelIterator::') or name.startswith('IndexedParallelIterator::') or name.startswith('DoubleEndedIterator::') or name.startswith('ExactSizeIterator::'):
        return M.get('iter.' + name.split('::')[1])
    return None

# ------------------------------------------------------------------ numbers
def num1(fn):
    def f(c):
        a = c.val(0)
        if a is BOT: return BOT
        return fn(a)
    return f
def scalar_fn(nm):
    def f(a):
        if isnum(a) and nm in ('ceil', 'floor', 'round', 'trunc'):
            v = numval(a)
            import math
            r = {'ceil': math.ceil(v), 'floor': math.floor(v), 'trunc': int(v), 'round': int(v + Fraction(1, 2)) if v >= 0 else -int(-v + Fraction(1, 2))}[nm]
            return num(r)
        if a.kind in ('int', 'nat') and nm in ('ceil', 'floor', 'round', 'trunc'): return a
        return app(nm, a, kind='real')
    return f
def gpow(a, b):
    """general power; integer factors of the exponent of a positive constant go into the base"""
    if isnum(b): return power(a, numval(b))
    if isnum(a) and numval(a) > 0:
        d = T._pd(b)
        if len(d) == 1:
            (m, k), = d.items()
            if k.denominator == 1 and abs(k) <= 64 and k != 1: a = num(Fraction(numval(a)) ** int(k)); b = scale(b, 1 / k)
    return app('pow', a, b, kind='real')
for ty in ('f64', 'f32'):
    M[ty + '::sqrt'] = num1(lambda a: power(a, Fraction(1, 2)))
    M[ty + '::abs'] = num1(f_abs)
    for nm in ('ceil', 'floor', 'round', 'trunc', 'exp', 'ln', 'log10', 'log2', 'sin', 'cos', 'tan', 'signum', 'exp2', 'cbrt', 'fract', 'sinh', 'cosh', 'tanh', 'atan', 'exp_m1', 'ln_1p'):
        M[ty + '::' + nm] = num1(scalar_fn(nm))
    M[ty + '::recip'] = num1(lambda a: power(a, -1))
    M[ty + '::is_nan'] = num1(is_nan)
    for nm in ('is_normal', 'is_finite', 'is_infinite', 'is_sign_negative', 'is_sign_positive', 'is_subnormal'):
        M[ty + '::' + nm] = num1(lambda a, nm=nm: boolterm(app(nm, a, kind='bool')))
    def fmax(c):
        a, b = c.val(0), c.val(1)
        l, e, u = cmp_rel(a, b)
        return ite(u, app('fmax', *sorted((a, b)), kind='real'), ite(l, b, a))
    def fmin(c):
        a, b = c.val(0), c.val(1)
        l, e, u = cmp_rel(a, b)
        return ite(u, app('fmin', *sorted((a, b)), kind='real'), ite(l, a, b))
    M[ty + '::max'] = fmax; M[ty + '::min'] = fmin
    M[ty + '::powi'] = M[ty + '::powf'] = lambda c: gpow(c.val(0), c.val(1))
    M[ty + '::mul_add'] = lambda c: add(mul(c.val(0), c.val(1)), c.val(2))
    M[ty + '::clamp'] = lambda c: ite(lt(c.val(0), c.val(1)), c.val(1), ite(gt(c.val(0), c.val(2)), c.val(2), c.val(0)))
    M[ty + '::log'] = lambda c: div(app('ln', c.val(0), kind='real'), app('ln', c.val(1), kind='real'))
    M[ty + '::hypot'] = lambda c: power(add(mul(c.val(0), c.val(0)), mul(c.val(1), c.val(1))), Fraction(1, 2))
    M[ty + '::total_cmp'] = lambda c: ordering(c.val(0), c.val(1), False)
    M[ty + '::to_bits'] = num1(lambda a: app('to_bits', a, kind='nat'))
SIMP_EXP = None

for ty in ('usize', 'u64', 'u32', 'u8', 'i32', 'i64', 'isize', 'u128', 'i128', 'u16'):
    M[ty + '::pow'] = lambda c: power(c.val(0), numval(c.val(1))) if isnum(c.val(1)) else app('pow', c.val(0), c.val(1), kind='nat')
    M[ty + '::saturating_add'] = lambda c: add(c.val(0), c.val(1))
    M[ty + '::saturating_mul'] = lambda c: mul(c.val(0), c.val(1))
    M[ty + '::saturating_sub'] = lambda c: natsub(c.val(0), c.val(1))
    M[ty + '::checked_add'] = lambda c: Some(add(c.val(0), c.val(1)))
    M[ty + '::checked_mul'] = lambda c: Some(mul(c.val(0), c.val(1)))
    M[ty + '::checked_sub'] = lambda c: ite(ge(c.val(0), c.val(1)), Some(sub(c.val(0), c.val(1))), NoneV())
    M[ty + '::checked_div'] = lambda c: ite(eq(c.val(1), ZERO), NoneV(), Some(c.I.idiv(c.val(0), c.val(1))))
    M[ty + '::wrapping_add'] = lambda c: c.I.arith_op('Add', c.val(0), c.val(1)) or add(c.val(0), c.val(1))
    M[ty + '::wrapping_sub'] = lambda c: app('wrap', sub(c.val(0), c.val(1)), kind='nat')
    M[ty + '::wrapping_mul'] = lambda c: c.I.arith_op('Mul', c.val(0), c.val(1)) or mul(c.val(0), c.val(1))
    M[ty + '::div_ceil'] = lambda c: c.I.idiv(add(c.val(0), c.val(1), num(-1)), c.val(1))
    M[ty + '::abs_diff'] = lambda c: ite(ge(c.val(0), c.val(1)), sub(c.val(0), c.val(1)), sub(c.val(1), c.val(0)))
    M[ty + '::is_multiple_of'] = lambda c: eq(c.I.irem(c.val(0), c.val(1)), ZERO)
    M[ty + '::rem_euclid'] = lambda c: c.I.irem(c.val(0), c.val(1))
    M[ty + '::div_euclid'] = lambda c: c.I.idiv(c.val(0), c.val(1))
    def bits(nm, fn):
        def f(a):
            if isnum(a) and numval(a) >= 0 and numval(a).denominator == 1:
                v = fn(int(numval(a)))
                if v is not None: return num(v)
            return app(nm, a, kind='nat')
        return num1(f)
    import math as _m
    for nm, fn in (('next_power_of_two', lambda v: 1 << (v - 1).bit_length() if v > 1 else 1), ('isqrt', _m.isqrt), ('ilog2', lambda v: v.bit_length() - 1 if v else None),
                   ('ilog10', lambda v: len(str(v)) - 1 if v else None), ('count_ones', lambda v: bin(v).count('1')), ('trailing_zeros', lambda v: (v & -v).bit_length() - 1 if v else None),
                   ('leading_zeros', lambda v: None), ('swap_bytes', lambda v: None), ('reverse_bits', lambda v: None)):
        M[ty + '::' + nm] = bits(nm, fn)
    M[ty + '::is_power_of_two'] = num1(lambda a: boolterm(app('is_power_of_two', a, kind='bool')))
def natsub(a, b):
    return imax(sub(a, b), ZERO)

@model('Ord::min')
def _(c):
    a, b = c.val(0), c.val(1)
    if a.kind in ('int', 'nat') and b.kind in ('int', 'nat'): return imin(a, b)
    return NotImplemented
@model('Ord::max')
def _(c):
    a, b = c.val(0), c.val(1)
    if a.kind in ('int', 'nat') and b.kind in ('int', 'nat'): return imax(a, b)
    return NotImplemented
M['core::cmp::min'] = M['Ord::min']; M['core::cmp::max'] = M['Ord::max']
@model('Ord::clamp')
def _(c):
    x, a, b = c.val(0), c.val(1), c.val(2)
    if x.kind in ('int', 'nat'): return imin(imax(x, a), b)
    return NotImplemented
@model('PartialOrd::partial_cmp')
def _(c):
    a, b = c.val(0), c.val(1)
    if a.kind in NUM and b.kind in NUM: return ordering(a, b, True)
    return NotImplemented
@model('Ord::cmp')
def _(c):
    a, b = c.val(0), c.val(1)
    if a.kind in NUM and b.kind in NUM: return ordering(a, b, False)
    return NotImplemented
def relop(fn):
    def f(c):
        a, b = c.val(0), c.val(1)
        if a.kind in NUM and b.kind in NUM: return fn(a, b)
        return NotImplemented
    return f
M['PartialOrd::lt'] = relop(lt); M['PartialOrd::le'] = relop(le)
M['PartialOrd::gt'] = relop(gt); M['PartialOrd::ge'] = relop(ge)
@model('PartialEq::eq')
def _(c):
    a, b = c.val(0), c.val(1)
    if (a.kind in NUM and b.kind in NUM) or (a.kind == 'bool' and b.kind == 'bool') : return eq(a, b)
    if 'body' in c.f: return NotImplemented
    if a.kind == 'mat' and b.kind == 'mat' and isvector(c, 0): return vec_eq(a, b)
    return eq(c.I.deep(c.st, a), c.I.deep(c.st, b))
def isvector(c, i):
    t = c.I.db.ty(c.I.db.strip(c.atys[i])); a = t.get('args') or []
    return t['k'] == 'adt' and len(a) > 2 and 'Const<1>' in c.I.db.ty(a[2]).get('s', '')
def vec_eq(a, b):
    """two vectors are equal: element by element (sums are formed from vectors of one length)"""
    if a.op == 'ite': return map_leaves(a, lambda x: vec_eq(x, b))
    if b.op == 'ite': return map_leaves(b, lambda x: vec_eq(a, x))
    part = lambda x, y: y.op == 'mat' and any(w == (x,) for w, cf in y.args)
    if part(b, a): a, b = b, a
    k = fresh('k', 'nat'); n = seqlen(a)
    return b_and(TRUE if part(a, b) else eq(n, seqlen(b)), b_not(bany(k, n, b_not(eq(select2(a, k, 'real'), select2(b, k, 'real'))))))
@model('PartialEq::ne')
def _(c):
    a, b = c.val(0), c.val(1)
    if a.kind in NUM and b.kind in NUM: return b_not(eq(a, b))
    if 'body' in c.f: return NotImplemented
    if a.kind == 'mat' and b.kind == 'mat' and isvector(c, 0): return b_not(vec_eq(a, b))
    return b_not(eq(c.I.deep(c.st, a), c.I.deep(c.st, b)))
M['core::intrinsics::integer_min'] = M['Ord::min']
M['core::intrinsics::integer_max'] = M['Ord::max']
M['core::intrinsics::integer_cmp'] = lambda c: ordering(c.val(0), c.val(1), False)
M['core::intrinsics::three_way_compare'] = lambda c: ordering(c.val(0), c.val(1), False)
M['core::intrinsics::discriminant_value'] = lambda c: c.I.discr(c.val(0), c.atys[0])

def arith(fn, assign=False):
    def f(c):
        a, b = c.val(0), c.val(1)
        if a is BOT or b is BOT: return BOT
        ok = lambda x: x.kind in NUM or x.kind == 'mat'
        if not (ok(a) and ok(b)): return NotImplemented
        r = fn(c, a, b)
        if r is NotImplemented: return r
        if a.kind != 'mat' and b.kind != 'mat' and not isfloat(c, 0) and not isfloat(c, 1):
            c.I.arith_op(fn.__name__[2:].capitalize(), a, b)
        if assign:
            c.setref(0, r); return UNIT
        return r
    return f
def m_add(c, a, b): return add(a, b)
def m_sub(c, a, b):
    if a.op == 'app' and a.args[0] == 'now' and a is not b and (c.f.get('r') or c.f)['p'].startswith('std::time::'): return app('elapsed', b, *(l.k for l in c.I.loops), kind='nat')
    if a.kind == 'mat' or b.kind == 'mat': return madd(a, mscale(b, num(-1)))
    return sub(a, b)
def m_mul(c, a, b): return mul(a, b)
def isfloat(c, i):
    t = c.I.db.ty(c.I.db.strip(c.atys[i])); return t['k'] == 'float'
def m_div(c, a, b):
    if b.kind == 'mat': return NotImplemented
    if a.kind == 'mat': return mscale(a, power(b, -1))
    return div(a, b) if isfloat(c, 0) or isfloat(c, 1) else c.I.idiv(a, b)
def m_rem(c, a, b):
    if a.kind in ('nat', 'int') and b.kind in ('nat', 'int'): return c.I.irem(a, b)
    return app('frem', a, b, kind='real')
for n, fn in (('Add', m_add), ('Sub', m_sub), ('Mul', m_mul), ('Div', m_div), ('Rem', m_rem)):
    M['%s::%s' % (n, n.lower())] = arith(fn)
    M['%sAssign::%s_assign' % (n, n.lower())] = arith(fn, True)
@model('Neg::neg')
def _(c):
    a = c.val(0)
    if a.kind == 'mat': return mscale(a, num(-1))
    if a.kind in NUM: return neg(a)
    return NotImplemented

# ------------------------------------------------------------------ identity-like
def ident(c): return c.val(0)
for n in ('Clone::clone', 'Deref::deref', 'Borrow::borrow', 'AsRef::as_ref', 'ToOwned::to_owned', 'core::hint::must_use',
          'Box::new', 'Vec::as_slice', 'Vec::into_boxed_slice', 'slice::to_vec', 'slice::into_vec', 'Matrix::as_slice', 'Matrix::clone_owned', 'Matrix::into_owned',
          'String::as_str', 'ToString::to_string!', 'core::hint::black_box', 'core::convert::identity', 'Matrix::as_vector', 'Rc::new', 'Arc::new', 'Vec::leak', 'slice::as_ref', 'str::as_ref'):
    M[n] = ident
def passref(c): return c.args[0]
for n in ('DerefMut::deref_mut', 'BorrowMut::borrow_mut', 'AsMut::as_mut', 'Matrix::as_mut_slice', 'Vec::as_mut_slice', 'VecDeque::make_contiguous'):
    M[n] = passref
@model('Clone::clone_from')
def _(c):
    c.setref(0, c.val(1)); return UNIT
@model('Into::into', 'From::from')
def _(c):
    dt = c.I.db.ty(c.I.db.strip(c.dty)); at = c.I.db.ty(c.I.db.strip(c.atys[0]))
    a = c.val(0)
    if c.dty == c.atys[0] or dt is at: return c.args[0]
    if dt['k'] in ('float', 'int', 'uint') and at['k'] in ('float', 'int', 'uint'): return a
    if dt['s'].endswith('String') or dt['k'] == 'str': return a
    if c.kind() == 'mat' and a.kind == 'seq': return vec_of(seqlen(a), a)
    if c.kind() == 'seq' and a.kind in ('seq',): return a
    if c.kind() == 'mat' and a.kind == 'mat': return a
    if dt['k'] == 'adt' and dt['path'] == OPT and 'body' not in c.f: return Some(a)
    return NotImplemented
@model('core::mem::replace')
def _(c):
    o = c.val(0); c.setref(0, c.args[1]); return o
@model('core::mem::take')
def _(c):
    o = c.val(0)
    t = c.I.db.ty(c.I.db.strip(c.atys[0]))
    if t['k'] == 'adt' and t['path'] == OPT: z = NoneV()
    elif c.I.kind(c.atys[0]) == 'seq': z = EMPTY
    elif c.I.kind(c.atys[0]) in NUM: z = ZERO
    else: return NotImplemented
    c.setref(0, z); return o
@model('core::mem::swap')
def _(c):
    a, b = c.val(0), c.val(1); c.setref(0, b); c.setref(1, a); return UNIT
@model('core::mem::drop', 'core::mem::forget')
def _(c): return UNIT
@model('Default::default')
def _(c):
    if 'body' in c.f: return NotImplemented
    k = c.kind()
    t = c.I.db.ty(c.dty)
    if k == 'seq': return EMPTY
    if k in NUM: return ZERO
    if k == 'bool': return FALSE
    if t['k'] == 'adt' and t['path'] == OPT: return NoneV()
    return NotImplemented
@model('Option::take')
def _(c):
    o = c.val(0); c.setref(0, NoneV()); return o
@model('Option::replace')
def _(c):
    o = c.val(0); c.setref(0, Some(c.args[1])); return o
@model('Option::insert')
def _(c):
    c.setref(0, Some(c.args[1])); return c.I.mkref([(cc, r, p + (('f', (1, 0), '0', c.atys[1], c.I.db.strip(c.atys[0])),)) for cc, r, p in c.I.unref(c.st, c.args[0])])

# ------------------------------------------------------------------ callables
def spread(c, i):
    a = c.args[i]
    if a.op == 'adt' and a.args[0] == 'tuple': return list(a.args[2:])
    return [a]
@model('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def _(c):
    return c.I.apply(c.args[0], spread(c, 1), c.st, c.pc, c.dty)

# ------------------------------------------------------------------ formatting and output
@model('core::fmt::rt::{impl#0}::new_display', 'Argument::new_display')
def _(c): return app('fmt:display', c.I.deep(c.st, c.val(0)))
for n in ('lower_exp', 'debug', 'upper_exp', 'lower_hex', 'binary', 'octal', 'pointer'):
    M['Argument::new_' + n] = (lambda n: lambda c: app('fmt:' + n, c.I.deep(c.st, c.val(0))))(n)
M['Argument::from_usize'] = lambda c: app('fmt:usize', c.val(0))
@model('Arguments::new', 'Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const', 'Arguments::new_v1')
def _(c): return app('fmt', *[c.I.deep(c.st, c.val(i)) for i in range(len(c.args))])
@model('alloc::fmt::format')
def _(c): return app('format', c.I.deep(c.st, c.val(0)), kind='str')
@model('std::io::stdio::_print', 'std::io::stdio::_eprint')
def _(c):
    c.I.event('print', c.f['p'].split('::')[-1], [c.I.deep(c.st, c.val(0))], c.pc)
    return UNIT
@model('ToString::to_string')
def _(c):
    if c.val(0).kind == 'str': return c.val(0)
    return app('to_string', c.I.deep(c.st, c.val(0)), kind='str')

# ------------------------------------------------------------------ clock, randomness
@model('Instant::now', 'SystemTime::now')
def _(c):
    c.I.event('clock', c.name, [], c.pc)
    return app('now', *tag(c, 'now'), kind='nat', ty=c.ty())
@model('Instant::elapsed')
def _(c):
    c.I.event('clock', c.name, [c.val(0)], c.pc)
    return app('elapsed', c.val(0), *(l.k for l in c.I.loops), kind='nat', ty=c.ty())   # one reading per iteration
@model('Instant::duration_since', 'Instant::saturating_duration_since')
def _(c):
    a, b = c.val(0), c.val(1)
    if a.op == 'app' and a.args[0] == 'now' and a is not b: return app('elapsed', b, *(l.k for l in c.I.loops), kind='nat', ty=c.ty())
    return NotImplemented
@model('Duration::as_nanos')
def _(c): return c.val(0)
for _n, _d in (('secs', 10**9), ('millis', 10**6), ('micros', 10**3)):
    M['Duration::as_' + _n] = lambda c, d=_d: c.I.idiv(c.val(0), num(d))
    M['Duration::from_' + _n] = lambda c, d=_d: scale_nat(c, d)
    M['Duration::as_%s_f64' % _n] = M['Duration::as_%s_f32' % _n] = lambda c, d=_d: mul(c.val(0), num(Fraction(1, d)))
def scale_nat(c, d): return mul(num(d), c.val(0))
def tag(c, key):
    I = c.I
    ks = tuple(l.k for l in I.loops)
    kk = (key, tuple(l.id for l in I.loops))
    n = I.seqno.get(kk, 0); I.seqno[kk] = n + 1
    return ks + (num(n),)
@model('SeedableRng::seed_from_u64')
def _(c):
    I = c.I
    I.event('rng', 'seed', [c.val(0)], c.pc)
    t = I.db.ty(c.dty)
    return app('rng', c.val(0), string(t['s']), ty=c.ty())
@model('SeedableRng::from_entropy', 'rand::rngs::thread::thread_rng', 'rand::thread_rng', 'SeedableRng::from_rng')
def _(c):
    c.I.event('entropy', c.name, [], c.pc)
    return app('entropy_rng', *tag(c, 'ent'))
@model('rand::random')
def _(c):
    c.I.event('entropy', 'rand::random', [], c.pc)
    return app('entropy', *tag(c, 'ent'), kind=c.kind(), ty=c.ty())
def place(c, i):
    """the locations a (nested) reference argument may denote"""
    a = c.args[i]; out = []
    work = [a]
    while work:
        x = work.pop()
        if x.op != 'ref': out.append(None); continue
        for cc, r, p in c.I.unref(c.st, x):
            v = c.I.rdloc(c.st, [(TRUE, r, p)])
            if v.op == 'ref': work.append(v)
            else: out.append((r, tuple(e[2] for e in p if e[0] == 'f')))
    return out
def draw(c, dist, rng, *args):
    key = (dist,) + args
    loc = place(c, draw.i)
    c.I.event('draw', dist, list(args), c.pc, loc)
    return app('draw:' + dist, rng, *args, *tag(c, key), kind=c.kind(), ty=c.ty())
@model('Rng::gen', 'Rng::random')
def _(c): draw.i = 0; return draw(c, 'gen<%s>' % c.I.db.ty(c.dty)['s'], c.I.deep(c.st, c.val(0)))
@model('Rng::gen_range', 'Rng::random_range')
def _(c): draw.i = 0; return draw(c, 'range', c.I.deep(c.st, c.val(0)), c.I.deep(c.st, c.val(1)))
@model('Rng::gen_bool')
def _(c): draw.i = 0; return boolterm(draw(c, 'bool', c.I.deep(c.st, c.val(0)), c.val(1)))
@model('Rng::sample')
def _(c): draw.i = 0; return draw(c, 'sample', c.I.deep(c.st, c.val(0)), c.I.deep(c.st, c.val(1)))
@model('Distribution::sample')
def _(c): draw.i = 1; return draw(c, 'sample', c.I.deep(c.st, c.val(1)), c.I.deep(c.st, c.val(0)))
@model('statrs::distribution::normal::{impl#2}::new', 'Normal::new')
def _(c): return Ok(app('Normal', c.val(0), c.val(1)))

# ------------------------------------------------------------------ vectors
def tyelem(c, i=0):
    """element type id of the sequence argument"""
    db = c.I.db
    t = db.ty(db.strip(c.atys[i]))
    while True:
        if t['k'] in ('slice', 'array'): return t['t']
        if t['k'] == 'adt' and t['args']:
            return t['args'][0]
        return None

M['Vec::new'] = M['Vec::with_capacity'] = M['VecDeque::new'] = M['VecDeque::with_capacity'] = lambda c: EMPTY
M['String::new'] = M['String::with_capacity'] = lambda c: string('')
@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(c): return c.val(0)
@model('Box::new_uninit')
def _(c): return app('uninit')
@model('alloc::vec::from_elem')
def _(c):
    n = c.val(1)
    return seq(fresh('k', 'nat'), n, c.I.deep(c.st, c.val(0)))
@model('Vec::push', 'VecDeque::push_back')
def _(c):
    c.setref(0, push(c.val(0), c.args[1])); return UNIT
@model('VecDeque::push_front')
def _(c):
    c.setref(0, push_front(c.val(0), c.args[1])); return UNIT
@model('VecDeque::truncate', 'Vec::truncate')
def _(c):
    c.setref(0, truncate(c.val(0), c.val(1))); return UNIT
def truncate(v, n):
    if v.op == 'app' and v.args[0] == 'truncate' and v.args[2] is n: return v
    return app('truncate', v, n, kind='seq', ty=v.ty)
@model('VecDeque::pop_back', 'Vec::pop')
def _(c):
    v = c.val(0)
    n = seqlen(v)
    r = ite(ge(n, ONE), Some(select(v, sub(n, ONE), c.I.kind(tyelem(c)), c.I.db.strip(tyelem(c)))), NoneV())
    if v.op == 'chunks' and v.args and v.args[-1].args[0] is TRUE and v.args[-1].args[1] == 'e':
        c.setref(0, chunks(v.args[:-1])); return Some(v.args[-1].args[2])
    c.setref(0, app('truncate', v, natsub(n, ONE), kind='seq', ty=v.ty))
    return r
@model('LineSeries::new')
def _(c):
    s = to_stream(c, 0)
    if s is None: return NotImplemented
    v = collect_seq(c, s)
    style = c.I.deep(c.st, c.args[1])
    c.I.event('series', 'line', [v, style], c.pc)
    return app('LineSeries', v, style, ty=c.ty())
@model('VecDeque::pop_front')
def _(c):
    v = c.val(0)
    n = seqlen(v)
    r = ite(ge(n, ONE), Some(select(v, ZERO, c.I.kind(tyelem(c)), c.I.db.strip(tyelem(c)))), NoneV())
    if v.op == 'chunks' and v.args and v.args[0].args[0] is TRUE and v.args[0].args[1] == 'e':
        c.setref(0, chunks(v.args[1:])); return Some(v.args[0].args[2])
    c.setref(0, app('subseq', v, imin(ONE, n), natsub(n, ONE), kind='seq', ty=v.ty))
    return r
@model('Vec::clear', 'VecDeque::clear')
def _(c):
    c.setref(0, EMPTY); return UNIT
@model('Vec::append')
def _(c):
    b = c.val(1); c.setref(0, concat(c.val(0), b)); c.setref(1, EMPTY); return UNIT
@model('Vec::extend_from_slice')
def _(c):
    c.setref(0, concat(c.val(0), c.val(1))); return UNIT
@model('Extend::extend')
def _(c):
    s = to_stream(c, 1)
    if s is None: return NotImplemented
    c.setref(0, concat(c.val(0), collect_seq(c, s))); return UNIT
@model('Vec::remove', 'VecDeque::remove', 'Vec::swap_remove')
def _(c): return NotImplemented
@model('Vec::retain', 'VecDeque::retain')
def _(c):
    v = c.val(0); f = c.args[1]
    if v.op == 'chunks' and all(q.args[1] == 'e' for q in v.args):
        out = []
        for q in v.args:
            keep = boolterm(c.I.apply(f, [q.args[2]], c.st, b_and(c.pc, q.args[0])))
            out.append(T.ch(b_and(q.args[0], keep), 'e', q.args[2]))
        c.setref(0, chunks(out)); return UNIT
    s = addstage(mkstream(adt('src:val', 0, v, num(tyelem(c) or 0)), ZERO, seqlen(v)), adt('st:filter', 0, f))
    c.setref(0, collect_seq(c, s)); return UNIT
@model('Vec::drain', 'VecDeque::drain')
def _(c):
    r = c.val(1)
    v = c.val(0)
    if r.op == 'adt' and r.args[0].endswith('RangeFrom'):
        c.setref(0, truncate(v, r.args[2]))
        return mkstream(adt('src:val', 0, app('subseq', v, r.args[2], sub(seqlen(v), r.args[2]), kind='seq'), num(tyelem(c) or 0)), ZERO, sub(seqlen(v), r.args[2]))
    if r.op == 'adt' and r.args[0].endswith('RangeFull'):
        c.setref(0, EMPTY)
        return mkstream(adt('src:val', 0, v, num(tyelem(c) or 0)), ZERO, seqlen(v))
    return NotImplemented
@model('Vec::len', 'slice::len', 'VecDeque::len', 'Matrix::len', 'array::len')
def _(c): return seqlen(c.val(0))
@model('Vec::is_empty', 'slice::is_empty', 'VecDeque::is_empty', 'Matrix::is_empty')
def _(c): return is_empty(c.val(0))
@model('String::is_empty', 'str::is_empty')
def _(c): return eq(app('len', c.val(0), kind='nat'), ZERO)
@model('Matrix::nrows', 'Matrix::ncols')
def _(c):
    if isvector(c, 0): return seqlen(c.val(0)) if c.f['n'] == 'nrows' else ONE
    return nrows(c.val(0)) if c.f['n'] == 'nrows' else ncols(c.val(0))
@model('slice::first', 'slice::last', 'VecDeque::front', 'VecDeque::back')
def _(c):
    v = c.val(0); n = seqlen(v)
    e = tyelem(c)
    i = ZERO if c.f['n'] in ('first', 'front') else sub(n, ONE)
    return ite(ge(n, ONE), Some(select(v, i, c.I.kind(e), c.I.db.strip(e))), NoneV())
@model('slice::get', 'VecDeque::get', 'Vec::get')
def _(c):
    v = c.val(0); n = seqlen(v); i = c.val(1)
    e = tyelem(c)
    if i.kind not in ('nat', 'int'): return NotImplemented
    return ite(gt(n, i), Some(select(v, i, c.I.kind(e), c.I.db.strip(e))), NoneV())
@model('Option::unwrap_or_default')
def _(c): return NotImplemented
@model('Index::index')
def _(c):
    v, i = c.val(0), c.I.deep(c.st, c.val(1))
    dt = c.dty
    if v.kind == 'mat' and i.op == 'adt' and i.args[0] == 'tuple':
        return midx(v, i.args[2], i.args[3])
    if i.op == 'adt' and i.args[0].split('::')[-1] in ('Range', 'RangeTo', 'RangeFrom', 'RangeFull', 'RangeInclusive', 'RangeToInclusive'):
        n = i.args[0].split('::')[-1]
        if n == 'RangeFull': return v
        if n == 'Range': return app('subseq', v, i.args[2], sub(i.args[3], i.args[2]), kind='seq')
        if n == 'RangeTo': return app('subseq', v, ZERO, i.args[2], kind='seq')
        if n == 'RangeFrom': return app('subseq', v, i.args[2], sub(seqlen(v), i.args[2]), kind='seq')
        return NotImplemented
    if i.kind in ('nat', 'int'):
        outside(c, v, i)
        return select(v, i, c.I.kind(dt), c.I.db.strip(dt))
    return NotImplemented
def outside(c, v, i):
    bad = b_and(c.pc, ge(i, seqlen(v)))
    if bad is not FALSE: c.I.event('assert', 'index', [], bad)
def s_subseq(v, off, n):
    if v.op == 'ite': return map_leaves(v, lambda l: app('subseq', l, off, n, kind='seq'))
    if off is ZERO and n is seqlen(v): return v
    if v.op == 'bind' and v.args[0] == 'seq':
        k = fresh('k', 'nat')
        return seq(k, n, select(v, add(off, k)))
    if v.op == 'app' and v.args[0] == 'subseq':
        return app('subseq', v.args[1], add(v.args[2], off), n, kind='seq')
    return None
SIMP['subseq'] = s_subseq
@model('IndexMut::index_mut')
def _(c):
    i = c.I.deep(c.st, c.val(1))
    if i.kind not in ('nat', 'int'): 
        if i.op == 'adt' and i.args[0] == 'tuple': pass
        else: return NotImplemented
    return c.I.mkref([(cc, r, p + (('i', i, c.dty),)) for cc, r, p in c.I.unref(c.st, c.args[0])])
@model('slice::get_mut', 'Vec::get_mut', 'VecDeque::get_mut')
def _(c):
    i = c.val(1); v = c.val(0)
    e = tyelem(c)
    r = c.I.mkref([(cc, r, p + (('i', i, e),)) for cc, r, p in c.I.unref(c.st, c.args[0])])
    return ite(gt(seqlen(v), i), Some(r), NoneV())
@model('slice::first_mut', 'slice::last_mut', 'VecDeque::front_mut', 'VecDeque::back_mut')
def _(c):
    v = c.val(0); n = seqlen(v); e = tyelem(c)
    i = ZERO if c.f['n'] in ('first_mut', 'front_mut') else sub(n, ONE)
    r = c.I.mkref([(cc, rr, p + (('i', i, e),)) for cc, rr, p in c.I.unref(c.st, c.args[0])])
    return ite(ge(n, ONE), Some(r), NoneV())
@model('slice::swap')
def _(c):
    v = c.val(0); i, j = c.val(1), c.val(2)
    e = tyelem(c)
    a = select(v, i, c.I.kind(e)); b = select(v, j, c.I.kind(e))
    c.setref(0, store(store(v, i, b), j, a)); return UNIT
@model('slice::reverse')
def _(c):
    c.setref(0, app('reversed', c.val(0), kind='seq')); return UNIT
@model('slice::contains', 'VecDeque::contains')
def _(c):
    v = c.val(0); x = c.I.deep(c.st, c.val(1)); k = fresh('k', 'nat'); e = tyelem(c)
    if v.op == 'chunks' and all(q.args[1] == 'e' for q in v.args):
        return b_or(*[b_and(q.args[0], eq(q.args[2], x)) for q in v.args])
    return bany(k, seqlen(v), eq(select(v, k, c.I.kind(e), c.I.db.strip(e)), x))
def cmpfn(c, f, kind='other', ty=None):
    """two-argument comparison closure as a closed term"""
    x = fresh('x', kind, ty); y = fresh('y', kind, ty)
    c.I.mute += 1
    try: r = c.I.apply(f, [x, y], c.st.copy(), TRUE)
    finally: c.I.mute -= 1
    r = c.I.deep(c.st, r)
    if kind in NUM:            # numbers: only the order matters, not how it is written
        import core
        for nm, o in (('natural', ordering(x, y, False)), ('descending', ordering(y, x, False))):
            if core.compare(r, o) is None: return string(nm)
    return closeb('fn2', (), (x, y), (r,))
def keyfn(c, f, kind='other', ty=None):
    x = fresh('x', kind, ty)
    c.I.mute += 1
    try: r = c.I.apply(f, [x], c.st.copy(), TRUE)
    finally: c.I.mute -= 1
    r = c.I.deep(c.st, r)
    return x, r
@model('slice::sort_by', 'slice::sort_unstable_by')
def _(c):
    e = tyelem(c)
    fn = cmpfn(c, c.args[1], c.I.kind(e), c.I.db.strip(e))
    if fn.kind == 'str': c.setref(0, app('sorted', c.val(0), fn, kind='seq', ty=c.val(0).ty)); return UNIT
    c.setref(0, app('sorted_unstable' if 'unstable' in c.name else 'sorted', c.val(0), fn, kind='seq', ty=c.val(0).ty)); return UNIT
@model('slice::sort', 'slice::sort_unstable')
def _(c):
    c.setref(0, app('sorted', c.val(0), string('natural'), kind='seq', ty=c.val(0).ty)); return UNIT
@model('slice::sort_by_key', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def _(c):
    e = tyelem(c)
    x, r = keyfn(c, c.args[1], c.I.kind(e), c.I.db.strip(e))
    y = fresh('y', x.kind, x.ty)
    fn = closeb('fn2', (), (x, y), (ordering(r, subst(r, {x: y}), False),))
    c.setref(0, app('sorted_unstable' if 'unstable' in c.name else 'sorted', c.val(0), fn, kind='seq', ty=c.val(0).ty)); return UNIT

# ------------------------------------------------------------------ matrices
def vec_of(n, s):
    if s.op == 'bind' and s.args[0] == 'seq':
        k = fresh('k', 'nat')
        b = select(s, k)
        if b.op == 'sel' and b.args[1] is k and k not in free_syms(b.args[0]) and b.args[0].kind == 'mat': return b.args[0]
        if b is ZERO: return app('zeros', n, kind='mat')
    return app('vec_of', n, s, kind='mat')
SIMP['vec_of'] = None
del SIMP['vec_of']
_oldsel = T.select
def select2(v, i, kind='other', ty=None):
    if i.op == 'app' and i.args[0] == 'col':
        if v.op == 'ite': return map_leaves(v, lambda l: select2(l, i))
        if v.op == 'store' and v.args[1] is i: return v.args[2]
        if v.op == 'bind' and v.args[0] == 'mapcols':
            op, h, nv, outer, bodies = bind_parts(v)
            return subst_bv(bodies[0], {h: select2(outer[0], i)})
        return T._mk('sel', (v, i), 'mat')
    if v.op == 'app' and v.args[0] == 'vec_of': return select2(v.args[2], i, kind, ty)
    if v.op == 'app' and v.args[0] == 'zeros': return ZERO
    if v.op == 'mat':
        if len(v.args) == 0: return ZERO
        out = []
        ok = True
        for w, cf in v.args:
            # linear in vectors; only split sums and scalars, words stay whole
            base = w[0] if len(w) == 1 else T._mkmat({w: ONE})
            out.append(mul(cf, select2(base, i, 'real') if len(w) == 1 else T._mk('sel', (base, i), 'real')))
        if len(v.args) == 1 and v.args[0][1] is ONE: return T._mk('sel', (v, i), 'real', ty)
        return add(*out)
    if v.op == 'bind' and v.args[0] == 'mapm':
        op, h, nv, outer, bodies = bind_parts(v)
        return subst_bv(bodies[0], {h: select2(outer[0], i, 'real')})
    if v.op == 'bind' and v.args[0] == 'zipm':
        op, h, nv, outer, bodies = bind_parts(v)
        return subst_bv(bodies[0], {h: select2(outer[0], i, 'real'), h + 1: select2(outer[1], i, 'real')})
    if v.op == 'app' and v.args[0] == 'cmul':
        return mul(*[select2(x, i, 'real') for x in v.args[1:]])
    if v.op == 'app' and v.args[0] == 'diag':
        return midx(v.args[1], i, i)
    if v.kind == 'mat': kind = 'real'
    if v.op == 'ite': return map_leaves(v, lambda l: select2(l, i, kind, ty))
    return _oldsel(v, i, kind, ty)
T.select = select2
select = select2
IP.select = select2; IP.vec_of = vec_of
def lenhook(v):
    if v.op == 'mat' and len(v.args):
        return T.seqlen(v.args[0][0][0]) if len(v.args[0][0]) == 1 else T._mk('app', ('len', v), 'nat')
    if v.op == 'app' and v.args[0] == 'vec_of': return v.args[1]
    if v.op == 'app' and v.args[0] == 'diag': return nrows(v.args[1])
    if v.op == 'sel' and v.args[1].op == 'app' and v.args[1].args[0] == 'col': return nrows(v.args[0])
    if v.op == 'bind' and v.args[0] == 'mapm': return T.seqlen(v.args[4])
    if v.op == 'bind' and v.args[0] == 'sum' and v.kind == 'mat':
        pass
    return T._mk('app', ('len', v), 'nat')
T.LENHOOK[0] = lenhook
_oldlen = SIMP['len']
SIMP['len'] = lambda v: (seqlen(v) if v.op in ('mat',) and len(v.args) or (v.op == 'app' and v.args[0] in ('vec_of', 'zeros', 'diag')) or (v.op == 'sel' and v.args[1].op == 'app' and v.args[1].args[0] == 'col') or (v.op == 'bind' and v.args[0] == 'mapm') else _oldlen(v)) if not (v.op == 'mat' and len(v.args) and len(v.args[0][0]) != 1) else None

def midx(m, i, j):
    if m.op == 'ite': return map_leaves(m, lambda l: midx(l, i, j))
    if T.isz(m): return ZERO
    return app('at', m, i, j, kind='real')
M['Matrix::from_iterator'] = lambda c: _from_iter(c)
def _from_iter(c):
    s = to_stream(c, len(c.args) - 1)
    if s is None: return NotImplemented
    v = collect_seq(c, s, c.val(len(c.args) - 2) if False else None)
    if len(c.args) == 2: return vec_of(c.val(0), v)
    return app('mat_of', c.val(0), c.val(1), v, kind='mat')
@model('Matrix::from_fn')
def _(c):
    if len(c.args) == 2:
        k = fresh('k', 'nat')
        n = c.val(0)
        s = mkstream(adt('src:range', 0, ZERO), ZERO, n, [adt('st:map2', 0, c.args[1])])
        return vec_of(n, collect_seq(c, s))
    return NotImplemented
@model('Matrix::from_element', 'Matrix::repeat')
def _(c):
    if len(c.args) == 2:
        if c.val(1) is ZERO: return app('zeros', c.val(0), kind='mat')
        return vec_of(c.val(0), seq(fresh('k', 'nat'), c.val(0), c.val(1)))
    return NotImplemented
@model('Matrix::from_vec', 'Matrix::from_row_slice', 'Matrix::from_column_slice')
def _(c):
    if len(c.args) == 1: return vec_of(seqlen(c.val(0)), c.val(0))
    return NotImplemented
M['Matrix::zeros'] = lambda c: app('zeros', c.val(0), kind='mat') if len(c.args) == 1 else MZERO
M['Matrix::identity'] = lambda c: app('identity', c.val(0), kind='mat')
M['Matrix::transpose'] = lambda c: transpose(c.val(0))
M['Matrix::adjoint'] = lambda c: transpose(c.val(0))
def m_norm(v):
    if T.isz(v): return ZERO
    if v.op == 'mat' and len(v.args) == 1:
        w, cf = v.args[0]
        if cf is not ONE: return mul(f_abs(cf), m_norm(T._mkmat({w: ONE})))
    return app('norm', v, kind='real')
M['Matrix::magnitude'] = M['Matrix::norm'] = lambda c: m_norm(c.val(0))
M['Matrix::magnitude_squared'] = M['Matrix::norm_squared'] = lambda c: power(m_norm(c.val(0)), 2)
def m_dot(a, b):
    if a is b: return power(m_norm(a), 2)
    a, b = sorted((a, b))
    return app('dot', a, b, kind='real')
M['Matrix::dot'] = lambda c: m_dot(c.val(0), c.val(1))
M['Matrix::normalize'] = lambda c: mscale(c.val(0), power(m_norm(c.val(0)), -1))
@model('Matrix::normalize_mut')
def _(c):
    v = c.val(0); n = m_norm(v)
    c.setref(0, mscale(v, power(n, -1))); return n
M['Matrix::scale'] = lambda c: mscale(c.val(0), c.val(1))
def cmul(a, b):
    a, b = sorted((a, b))
    return app('cmul', a, b, kind='mat')
M['Matrix::component_mul'] = lambda c: cmul(c.val(0), c.val(1))
@model('Matrix::component_mul_assign')
def _(c):
    c.setref(0, cmul(c.val(0), c.val(1))); return UNIT
M['Matrix::component_div'] = lambda c: app('cdiv', c.val(0), c.val(1), kind='mat')
def s_diag(v):
    if v.op == 'app' and v.args[0] == 'from_diag': return v.args[1]
    return None
SIMP['diag'] = s_diag
def s_sorted(v, f):
    if v.op == 'app' and v.args[0] == 'diag':
        k = fresh('k', 'nat')
        return app('sorted', T.seq(k, seqlen(v), select2(v, k, 'real')), f, kind='seq')
SIMP['sorted'] = s_sorted
M['Matrix::diagonal'] = lambda c: app('diag', c.val(0), kind='mat')
M['Matrix::from_diagonal'] = lambda c: app('from_diag', c.val(0), kind='mat')
M['Matrix::max'] = lambda c: T.extreme(True, c.val(0))
M['Matrix::min'] = lambda c: T.extreme(False, c.val(0))
M['Data::new'] = lambda c: c.val(0)
M['Median::median'] = lambda c: app('median', c.val(0), kind='real')
M['Matrix::amax'] = lambda c: app('amax', c.val(0), kind='real')
M['Matrix::amin'] = lambda c: app('amin', c.val(0), kind='real')
M['Matrix::sum'] = lambda c: (lambda v, k: bsum(k, seqlen(v), select(v, k, 'real')))(c.val(0), fresh('k', 'nat'))
for _n in ('is_identity', 'is_orthogonal', 'is_special_orthogonal', 'is_invertible'):
    M['Matrix::' + _n] = (lambda n: lambda c: app(n, *[c.val(i) for i in range(len(c.args))], kind='bool'))(_n)
for _n in ('determinant', 'amax', 'amin', 'camax', 'camin', 'variance', 'mean'):
    M.setdefault('Matrix::' + _n, (lambda n: lambda c: app('mat_' + n, c.val(0), kind='real'))(_n))
M['Matrix::trace'] = lambda c: app('trace', c.val(0), kind='real')
def colix(i): return app('col', i, kind='other')
M['Matrix::column'] = lambda c: select2(c.val(0), colix(c.val(1)))
M['Matrix::row'] = lambda c: transpose(select2(transpose(c.val(0)), colix(c.val(1))))
@model('Matrix::map')
def _(c):
    v = c.val(0)
    x, r = keyfn(c, c.args[1], 'real')
    return mapm(v, x, r)
@model('Matrix::apply')
def _(c): return for_each(c, M['Matrix::iter_mut'](c))
@model('Matrix::zip_map')
def _(c):
    x, y = fresh('x', 'real'), fresh('y', 'real')
    c.I.mute += 1
    try: r = c.I.apply(c.args[2], [x, y], c.st.copy(), TRUE)
    finally: c.I.mute -= 1
    r = c.I.deep(c.st, r)
    a, b = c.val(0), c.val(1)
    if r is mul(x, y): return cmul(a, b)
    if r is add(x, y): return madd(a, b)
    if r is sub(x, y): return madd(a, mscale(b, num(-1)))
    return closeb('zipm', (a, b), (x, y), (r,), 'mat')
M['Matrix::unscale'] = lambda c: mscale(c.val(0), power(c.val(1), -1))
@model('Matrix::scale_mut')
def _(c): c.setref(0, mscale(c.val(0), c.val(1))); return UNIT
@model('Matrix::unscale_mut')
def _(c): c.setref(0, mscale(c.val(0), power(c.val(1), -1))); return UNIT
@model('Matrix::axpy')
def _(c):
    if len(c.args) != 4: return NotImplemented
    c.setref(0, madd(mscale(c.val(2), c.val(1)), mscale(c.val(0), c.val(3)))); return UNIT
@model('Matrix::copy_from')
def _(c): c.setref(0, c.val(1)); return UNIT
@model('Matrix::neg_mut')
def _(c): c.setref(0, mscale(c.val(0), num(-1))); return UNIT
@model('Matrix::fill_lower_triangle_with_upper_triangle')
def _(c):
    c.setref(0, app('symm_upper', c.val(0), kind='mat')); return UNIT
@model('Matrix::fill_upper_triangle_with_lower_triangle')
def _(c):
    c.setref(0, app('symm_lower', c.val(0), kind='mat')); return UNIT

@model('Matrix::column_iter_mut')
def _(c):
    ref = c.args[0] if c.args[0].op == 'ref' else c.I.mkref(c.I.unref(c.st, c.args[0]))
    return mkstream(adt('src:mutcols', 0, ref), ZERO, ncols(c.val(0)))
@model('Matrix::column_iter')
def _(c): return mkstream(adt('src:cols', 0, c.val(0)), ZERO, ncols(c.val(0)))
@model('Matrix::column_mut')
def _(c):
    return c.I.mkref([(cc, r, p + (('i', colix(c.val(1)), c.dty),)) for cc, r, p in c.I.unref(c.st, c.args[0])])
def ncols(v):
    if v.op == 'store': return ncols(v.args[0])
    if v.op == 'bind' and v.args[0] == 'mapcols': return ncols(v.args[4])
    return nrows(v)      # the matrices of the optimizer are square
def nrows(v):
    if v.op == 'ite': return map_leaves(v, nrows)
    if v.op == 'store': return nrows(v.args[0])
    if v.op == 'bind' and v.args[0] == 'mapcols': return nrows(v.args[4])
    if v.op == 'app' and v.args[0] == 'from_diag': return seqlen(v.args[1])
    if v.op == 'app' and v.args[0] == 'identity': return v.args[1]
    return app('nrows', v, kind='nat')
SIMP['nrows'] = lambda v: (lambda r: None if r.op == 'app' and r.args[1] is v else r)(nrows(v)) if v.op in ('ite', 'store', 'bind') or v.op == 'app' and v.args[0] in ('from_diag', 'identity') else None
def mapcols(m, x, body):
    if body is x: return m
    return closeb('mapcols', (m,), (x,), (body,), 'mat')
T.BINDCANON['mapcols'] = lambda vs, outer, bodies, kind, ty: mapcols(outer[0], vs[0], bodies[0])
def colreduce(k, N, m, nxt, init):
    # every column replaced by a function of itself
    if nxt.op != 'store' or nxt.args[0] is not m: return None
    i = nxt.args[1]
    if not (i.op == 'app' and i.args[0] == 'col' and i.args[1] is k): return None
    if N is not ncols(init): return None
    x = fresh('x', 'mat')
    b = subst(nxt.args[2], {T._mk('sel', (m, i), 'mat'): x})
    if m in free_syms(b) or k in free_syms(b): return None
    return mapcols(init, x, b)
IP.colreduce = colreduce
# ------------------------------------------------------------------ streams
def mkstream(src, lo, hi, stages=()):
    return adt('Stream', 0, src, lo, hi, adt('stages', 0, *stages))
def sparts(s): return s.args[2], s.args[3], s.args[4], list(s.args[5].args[2:])
def is_stream(v): return v.op == 'adt' and v.args[0] == 'Stream'
def has_filter(s): return any(x.args[0] in ('st:filter', 'st:filter_map') for x in sparts(s)[3]) or inner_filter(s)
def inner_filter(s):
    src = s.args[2]
    return any(is_stream(x) and has_filter(x) for x in src.args[2:] if isinstance(x, Node))

RANGE = ('Range', 'RangeInclusive', 'RangeFrom')
INF = app('endless', kind='nat')     # length of an endless stream
def to_stream(c, i, v=None):
    """iterable argument -> stream value"""
    I = c.I; db = I.db
    raw = c.args[i] if v is None else v
    if raw.op == 'ref':
        inner = I.rdloc(c.st, I.unref(c.st, raw))
        if is_stream(inner): return inner
        if inner.op == 'adt' and inner.args[0].split('::')[-1] in ('Range', 'RangeInclusive') and v is None:
            s = to_stream(c, i, inner)
            I.wrloc(c.st, I.unref(c.st, raw), app('consumed', inner, ty=inner.ty))
            return s
        ty = db.ty(c.atys[i]) if v is None else None
        # &mut Vec
        e = tyelem(c, i) if v is None else None
        return mkstream(adt('src:mut', 0, raw, num(e if e is not None else 0)), ZERO, seqlen(inner))
    val = I.deref(c.st, raw)
    if is_stream(val): return val
    if val.op == 'adt' and val.args[0].split('::')[-1] == 'Range':
        a, b = val.args[2], val.args[3]
        n = natsub(b, a) if not (a is ZERO) else b
        if b.kind != 'nat' and a is ZERO: n = imax(b, ZERO)
        return mkstream(adt('src:range', 0, a), ZERO, n)
    if val.op == 'adt' and val.args[0].split('::')[-1] == 'RangeInclusive':
        a, b = val.args[2], val.args[3]
        return mkstream(adt('src:range', 0, a), ZERO, natsub(add(b, ONE), a))
    if val.op == 'adt' and val.args[0].split('::')[-1] == 'RangeFrom' and val.args[2].kind in ('nat', 'int'):
        return mkstream(adt('src:range', 0, val.args[2]), ZERO, INF)
    if val.op == 'adt' and val.args[0] == OPT:
        if val.args[1] == 0: return mkstream(adt('src:val', 0, EMPTY, num(0)), ZERO, ZERO)
        return mkstream(adt('src:val', 0, mklist([val.args[2]]), num(0)), ZERO, ONE)
    if val.kind in ('seq', 'mat'):
        e = tyelem(c, i) if v is None else None
        if e is None: e = seqelem_ty(db, val)
        return mkstream(adt('src:val', 0, val, num(e if e is not None else 0)), ZERO, seqlen(val))
    return None
def seqelem_ty(db, v):
    if isinstance(v.ty, int):
        t = db.ty(db.strip(v.ty))
        if t['k'] in ('slice', 'array'): return t['t']
        if t['k'] == 'adt' and t['args']: return t['args'][0]
    return None

def elem(c, st, pc, s, idx):
    """(guard, value) of the element at absolute index idx"""
    I = c.I
    src, lo, hi, stages = sparts(s)
    tag_ = src.args[0]
    g = TRUE
    if tag_ == 'src:val':
        ty = int(numval(src.args[3]))
        k = I.kind(ty)
        if src.args[2].kind == 'mat': k = 'real'
        v = select(src.args[2], idx, k, I.db.strip(ty))
    elif tag_ == 'src:mut':
        ty = int(numval(src.args[3]))
        v = I.mkref([(cc, r, p + (('i', idx, ty),)) for cc, r, p in I.unref(st, src.args[2])])
    elif tag_ == 'src:mutcols':
        v = I.mkref([(cc, r, p + (('i', colix(idx), None),)) for cc, r, p in I.unref(st, src.args[2])])
    elif tag_ == 'src:cols':
        v = select2(src.args[2], colix(idx))
    elif tag_ == 'src:range':
        v = add(src.args[2], idx)
    elif tag_ == 'src:repeat': v = src.args[2]
    elif tag_ == 'src:repeat_with': v = I.apply(src.args[2], [], st, pc)
    elif tag_ == 'src:zip':
        a, b = src.args[2], src.args[3]
        g1, v1 = elem(c, st, pc, a, add(sparts(a)[1], idx))
        g2, v2 = elem(c, st, pc, b, add(sparts(b)[1], idx))
        g = b_and(g1, g2)
        v = adt('tuple', 0, v1, v2)
    elif tag_ == 'src:rev':
        a = src.args[2]
        alo, ahi = sparts(a)[1:3]
        g, v = elem(c, st, pc, a, sub(sub(ahi, ONE), idx))
    elif tag_ == 'src:step':
        a = src.args[2]
        g, v = elem(c, st, pc, a, add(sparts(a)[1], mul(idx, src.args[3])))
    elif tag_ == 'src:chain':
        a, b = src.args[2], src.args[3]
        na = sub(sparts(a)[2], sparts(a)[1])
        g1, v1 = elem(c, st, pc, a, add(sparts(a)[1], idx))
        g2, v2 = elem(c, st, pc, b, add(sparts(b)[1], sub(idx, na)))
        sel = lt(idx, na)
        g = ite(sel, g1, g2); v = merge_val(sel, v1, v2)
    else: raise Unmodelled('stream source ' + tag_)
    for stg in stages:
        t = stg.args[0]
        if t == 'st:map':
            v = I.apply(stg.args[2], [v], st, b_and(pc, g))
        elif t == 'st:map2':
            v = I.apply(stg.args[2], [v, ZERO], st, b_and(pc, g))
        elif t == 'st:enum':
            v = adt('tuple', 0, sub(idx, stg.args[2]), v)
        elif t == 'st:cloned':
            v = I.deref(st, v)
        elif t == 'st:inspect':
            I.apply(stg.args[2], [v], st, b_and(pc, g))
        elif t == 'st:filter':
            r = I.apply(stg.args[2], [v], st, b_and(pc, g))
            g = b_and(g, boolterm(r))
        elif t == 'st:filter_map':
            r = I.apply(stg.args[2], [v], st, b_and(pc, g))
            g = b_and(g, is_some(r))
            v = field(r, (1, 0), '0')
        else: raise Unmodelled('stage ' + t)
    return g, v

def drive(c, s, consume):
    """run consume(state, cond, value)->stop-condition over the stream; returns list of outs"""
    I = c.I
    root = I.newroot('T')
    c.st.set(root, s)
    def step(stt, cond):
        cur = stt.get(root)
        src, lo, hi, stages = sparts(cur)
        inb = inside(lo, hi)
        exits = [('END', b_not(inb), stt.copy())] if inb is not TRUE else []
        stt.set(root, mkstream(src, add(lo, ONE), hi, stages))
        g, v = elem(c, stt, inb, cur, lo)
        if g is TRUE:
            stop = consume(stt, inb, v)
            gs = stop
        else:
            s2 = stt.copy()
            stop = consume(s2, b_and(inb, g), v)
            _, m = merge_states([(g, s2), (b_not(g), stt)])
            stt.m = m.m
            gs = b_and(g, stop)
        if gs is not FALSE:
            exits.append(('STOP', b_and(inb, gs), stt.copy()))
        return ([(b_and(inb, b_not(gs)), stt)] if b_and(inb, b_not(gs)) is not FALSE else []), exits
    outs = I.solve_loop(c.st, c.pc, step)
    return outs

def finish(c, outs, value):
    """merge loop exits; value(target, state) -> result"""
    edges = []
    vals = []
    r = c.I.newroot('T')
    for t, cond, s in outs:
        if cond is FALSE: continue
        s.set(r, value(t, s))
        edges.append((cond, s))
    cc, s = merge_states(edges)
    c.st.m = s.m
    return s.get(r)

def pieces(s):
    """a stream over a concatenation as the (guarded) streams over its parts, or None"""
    src, lo, hi, stages = sparts(s)
    if any(x.args[0] not in ('st:map', 'st:cloned', 'st:filter', 'st:filter_map') for x in stages): return None
    if src.args[0] == 'src:chain' and lo is ZERO and hi is add(slen(src.args[2]), slen(src.args[3])):
        parts = []
        for x in src.args[2:4]:
            a, b, d, e = sparts(x)
            parts.append((TRUE, mkstream(a, b, d, e + stages)))
        return parts
    if not any(x.args[0] in ('st:filter', 'st:filter_map') for x in stages): return None
    v = src.args[2] if src.args[0] == 'src:val' else None
    if v is not None and v.op == 'chunks' and lo is ZERO and hi is seqlen(v) and len(v.args) > 1 and any(x.args[1] == 's' for x in v.args):
        one = [(x.args[0], chunks([ch(TRUE, x.args[1], x.args[2])])) for x in v.args]
        return [(g, mkstream(adt('src:val', 0, x, src.args[3]), ZERO, seqlen(x), stages)) for g, x in one]
    return None

def collect_seq(c, s, n=None):
    I = c.I
    ps = pieces(s)
    if ps:
        out = EMPTY
        for g, p in ps: out = concat(out, ite(g, collect_seq(c, p), EMPTY))
        return out
    src, lo, hi, stages = sparts(s)
    v = src.args[2] if src.args[0] == 'src:val' else None
    if v is not None and v.op == 'bind' and v.args[0] == 'fseq' and lo is ZERO and hi is seqlen(v) and stages and all(x.args[0] in ('st:map', 'st:cloned', 'st:filter', 'st:filter_map') for x in stages):
        # filtered before: one filter
        op, h, nv, outer, bodies = T.bind_parts(v)
        k = fresh('k', 'nat')
        g, b = T.open_bind(v, [k])
        q = T.closeb('seq', (outer[0],), (k,), (b,), 'seq', v.ty)
        keep = c.st.copy()
        w = collect_seq(c, mkstream(adt('src:val', 0, q, src.args[3]), ZERO, outer[0], stages))
        if w.op == 'bind' and w.args[0] in ('fseq', 'seq') and T.bind_parts(w)[3][0] is outer[0]:
            bs = T.open_bind(w, [k])
            return T.fseq(k, outer[0], b_and(g, bs[0]) if w.args[0] == 'fseq' else g, bs[-1], w.ty)
        c.st.m = keep.m
    acc = I.newroot('T')
    c.st.set(acc, EMPTY)
    def consume(st, cond, v):
        st.set(acc, push(st.get(acc), I.deep(st, v)))
        return FALSE
    return finish(c, drive(c, s, consume), lambda t, st: st.get(acc))

def stream_op(fn):
    def f(c):
        s = to_stream(c, 0)
        if s is None: return NotImplemented
        return fn(c, s)
    return f
def it(*names):
    def d(fn):
        for n in names: M['iter.' + n] = stream_op(fn)
        return fn
    return d

@model('IntoIterator::into_iter', 'IntoParallelIterator::into_par_iter', 'slice::iter', 'VecDeque::iter', 'Matrix::iter', 'Vec::iter',
       'IntoParallelRefIterator::par_iter', 'slice::par_iter', 'array::iter', 'Iterator::by_ref!', 'VecDeque::into_iter')
def _(c):
    s = to_stream(c, 0)
    return NotImplemented if s is None else s
@model('slice::iter_mut', 'VecDeque::iter_mut', 'Matrix::iter_mut', 'IntoParallelRefMutIterator::par_iter_mut')
def _(c):
    e = tyelem(c)
    if c.args[0].op != 'ref':
        root = c.I.unref(c.st, c.args[0])
        ref = c.I.mkref(root)
    else: ref = c.args[0]
    return mkstream(adt('src:mut', 0, ref, num(e)), ZERO, seqlen(c.val(0)))
M['core::iter::sources::once::once'] = lambda c: mkstream(adt('src:val', 0, mklist([c.args[0]]), num(0)), ZERO, ONE)
M['core::iter::sources::empty::empty'] = lambda c: mkstream(adt('src:val', 0, EMPTY, num(0)), ZERO, ZERO)

M['core::iter::sources::repeat::repeat'] = lambda c: mkstream(adt('src:repeat', 0, c.I.deep(c.st, c.args[0])), ZERO, INF)
M['core::iter::sources::repeat_with::repeat_with'] = lambda c: mkstream(adt('src:repeat_with', 0, c.args[0]), ZERO, INF)
M['core::iter::sources::repeat_n::repeat_n'] = lambda c: mkstream(adt('src:repeat', 0, c.I.deep(c.st, c.args[0])), ZERO, c.val(1))

def addstage(s, st):
    src, lo, hi, stages = sparts(s)
    return mkstream(src, lo, hi, stages + [st])
it('map')(lambda c, s: addstage(s, adt('st:map', 0, c.args[1])))
it('inspect')(lambda c, s: addstage(s, adt('st:inspect', 0, c.args[1])))
it('filter')(lambda c, s: addstage(s, adt('st:filter', 0, c.args[1])))
it('filter_map')(lambda c, s: addstage(s, adt('st:filter_map', 0, c.args[1])))
it('cloned', 'copied')(lambda c, s: addstage(s, adt('st:cloned', 0)))
it('fuse', 'by_ref', 'peekable')(lambda c, s: s if c.f['n'] == 'fuse' else NotImplemented)
@it('flat_map', 'flatten')
def _(c, s):
    I = c.I
    acc = I.newroot('T')
    c.st.set(acc, EMPTY)
    bad = []
    def consume(st, cond, v):
        r = I.apply(c.args[1], [v], st, cond) if c.f['n'] == 'flat_map' else v
        c2 = Call(I, c.name, c.f, c.args, st, b_and(c.pc, cond), c.dty, c.atys)
        x = I.deref(st, r)
        x = x if is_stream(x) else to_stream(c2, 0, x)
        if x is None: bad.append(r); return FALSE
        inner = collect_seq(c2, x)
        st.set(acc, concat(st.get(acc), inner))
        return FALSE
    keep = c.st.copy()
    v = finish(c, drive(c, s, consume), lambda t, st: st.get(acc))
    if bad:
        c.st.m = keep.m; return NotImplemented
    return mkstream(adt('src:val', 0, v, num(0)), ZERO, seqlen(v))
@it('enumerate')
def _(c, s):
    if has_filter(s):
        v = collect_seq(c, s)
        s = mkstream(adt('src:val', 0, v, num(0)), ZERO, seqlen(v))
    return addstage(s, adt('st:enum', 0, sparts(s)[1]))
def nofilter(c, s):
    if has_filter(s):
        v = collect_seq(c, s)
        return mkstream(adt('src:val', 0, v, num(0)), ZERO, seqlen(v))
    return s
@it('take')
def _(c, s):
    s = nofilter(c, s)
    src, lo, hi, st = sparts(s)
    return mkstream(src, lo, smin(add(lo, c.val(1)), hi), st)
def inside(lo, hi): return TRUE if hi is INF else lt(lo, hi)
def smin(a, b): return b if a is INF else a if b is INF else imin(a, b)
@it('skip')
def _(c, s):
    s = nofilter(c, s)
    src, lo, hi, st = sparts(s)
    return mkstream(src, smin(add(lo, c.val(1)), hi), hi, st)
@it('rev')
def _(c, s):
    s = nofilter(c, s)
    return mkstream(adt('src:rev', 0, s), ZERO, slen(s))
@it('step_by')
def _(c, s):
    s = nofilter(c, s)
    n = c.val(1)
    return mkstream(adt('src:step', 0, s, n), ZERO, c.I.idiv(add(slen(s), n, num(-1)), n))
@it('zip')
def _(c, s):
    o = to_stream(c, 1)
    if o is None: return NotImplemented
    s = nofilter(c, s); o = nofilter(c, o)
    return mkstream(adt('src:zip', 0, s, o), ZERO, smin(slen(s), slen(o)))
@it('chain')
def _(c, s):
    o = to_stream(c, 1)
    if o is None: return NotImplemented
    s = nofilter(c, s); o = nofilter(c, o)
    return mkstream(adt('src:chain', 0, s, o), ZERO, add(slen(s), slen(o)))
def slen(s):
    src, lo, hi, st = sparts(s)
    return sub(hi, lo) if hi is not INF else INF
@it('len')
def _(c, s): return slen(s) if not has_filter(s) else NotImplemented
M['ExactSizeIterator::len'] = M['iter.len']

@model('Iterator::next')
def _(c):
    I = c.I
    s = c.val(0)
    if s.op == 'adt' and s.args[0].split('::')[-1] == 'Range':
        a, b = s.args[2], s.args[3]
        cnd = lt(a, b)
        c.setref(0, T._mk('adt', s.args[:2] + (ite(cnd, add(a, ONE), a), b), s.kind, s.ty))
        return ite(cnd, Some(a), NoneV())
    if not is_stream(s): return NotImplemented
    src, lo, hi, stages = sparts(s)
    inb = inside(lo, hi)
    if has_filter(s) and not I.loops:
        return find_in(c, s, lambda v, st, cond: TRUE, lambda v: v, c.args[0])
    old = c.st.copy()
    c.setref(0, mkstream(src, add(lo, ONE), hi, stages))
    g, v = elem(c, c.st, b_and(c.pc, inb), s, lo)
    if not I.loops:
        # outside a loop the cursor only moves when an element exists
        c.setref(0, mkstream(src, smin(add(lo, ONE), hi), hi, stages))
    r = Some(v)
    if g is not TRUE: r = ite(g, Some(v), adt(OPT, 2))
    return ite(inb, r, NoneV())

def find_in(c, s, pred, proj, ref=None):
    I = c.I
    acc = I.newroot('T'); c.st.set(acc, BOT)
    def consume(st, cond, v):
        p = pred(v, st, cond)
        st.set(acc, proj(v))
        return boolterm(p)
    outs = drive(c, s, consume)
    return finish(c, outs, lambda t, st: Some(st.get(acc)) if t == 'STOP' else NoneV())

@it('any')
def _(c, s):
    outs = drive(c, s, lambda st, cond, v: boolterm(c.I.apply(c.args[1], [v], st, cond)))
    return finish(c, outs, lambda t, st: TRUE if t == 'STOP' else FALSE)
@it('all')
def _(c, s):
    outs = drive(c, s, lambda st, cond, v: b_not(boolterm(c.I.apply(c.args[1], [v], st, cond))))
    return finish(c, outs, lambda t, st: FALSE if t == 'STOP' else TRUE)
@it('find', 'find_first', 'find_any')
def _(c, s): return find_in(c, s, lambda v, st, cond: c.I.apply(c.args[1], [v], st, cond), lambda v: v)
@it('position')
def _(c, s):
    I = c.I
    cnt = I.newroot('T'); c.st.set(cnt, ZERO)
    def consume(st, cond, v):
        p = boolterm(I.apply(c.args[1], [v], st, cond))
        n = st.get(cnt)
        st.set(cnt, ite(p, n, add(n, ONE)))
        return p
    outs = drive(c, s, consume)
    return finish(c, outs, lambda t, st: Some(st.get(cnt)) if t == 'STOP' else NoneV())
@it('for_each')
def for_each(c, s):
    def consume(st, cond, v):
        c.I.apply(c.args[1], [v], st, cond); return FALSE
    return finish(c, drive(c, s, consume), lambda t, st: UNIT)
@it('count')
def _(c, s):
    acc = c.I.newroot('T'); c.st.set(acc, ZERO)
    def consume(st, cond, v):
        st.set(acc, add(st.get(acc), ONE)); return FALSE
    return finish(c, drive(c, s, consume), lambda t, st: st.get(acc))
@it('sum')
def _(c, s):
    I = c.I
    k = c.kind()
    acc = I.newroot('T'); c.st.set(acc, MZERO if k == 'mat' else ZERO)
    if k not in NUM and k != 'mat': return NotImplemented
    def consume(st, cond, v):
        st.set(acc, add(st.get(acc), I.deref(st, v))); return FALSE
    return finish(c, drive(c, s, consume), lambda t, st: st.get(acc))
@it('product')
def _(c, s):
    I = c.I
    acc = I.newroot('T'); c.st.set(acc, ONE)
    def consume(st, cond, v):
        st.set(acc, mul(st.get(acc), I.deref(st, v))); return FALSE
    return finish(c, drive(c, s, consume), lambda t, st: st.get(acc))
@it('fold')
def _(c, s):
    I = c.I
    if len(c.args) < 3: return NotImplemented
    acc = I.newroot('T'); c.st.set(acc, c.args[1])
    def consume(st, cond, v):
        st.set(acc, I.apply(c.args[2], [st.get(acc), v], st, cond)); return FALSE
    return finish(c, drive(c, s, consume), lambda t, st: st.get(acc))
def trying(c):
    """the type a fallible step answers with: path, variant of success, variant of failure, success"""
    t = c.I.db.ty(c.dty)
    if t['k'] != 'adt': return None
    p = t['path']
    if p == RES: return p, 0, 1, Ok
    if p == OPT: return p, 1, 0, Some
    if p.split('::')[-1] == 'ControlFlow': return p, 0, 1, lambda v: adt(p, 0, v, ty=c.ty())
    return None
@it('try_for_each')
def _(c, s):
    I = c.I
    y = trying(c)
    if y is None or len(c.args) < 2: return NotImplemented
    ev = I.newroot('T'); c.st.set(ev, BOT)
    def consume(st, cond, v):
        r = I.deep(st, I.apply(c.args[1], [v], st, cond))
        st.set(ev, r)
        return is_variant(r, y[0], y[2])
    return finish(c, drive(c, s, consume), lambda t, st: st.get(ev) if t == 'STOP' else y[3](UNIT))
@it('try_fold')
def _(c, s):
    I = c.I
    y = trying(c)
    if y is None or len(c.args) < 3: return NotImplemented
    acc = I.newroot('T'); c.st.set(acc, c.args[1])
    ev = I.newroot('T'); c.st.set(ev, BOT)
    def consume(st, cond, v):
        r = I.deep(st, I.apply(c.args[2], [st.get(acc), v], st, cond))
        st.set(ev, r); st.set(acc, field(r, (y[1], 0), '0'))
        return is_variant(r, y[0], y[2])
    return finish(c, drive(c, s, consume), lambda t, st: st.get(ev) if t == 'STOP' else y[3](st.get(acc)))
@it('collect')
def _(c, s):
    I = c.I
    t = I.db.ty(c.dty)
    if c.kind() == 'seq': return collect_seq(c, s)
    if t['k'] == 'adt' and t['path'] in (RES, OPT) and t['args'] and I.kind(t['args'][0]) == 'seq':
        res = t['path'] == RES
        good, badv = (0, 1) if res else (1, 0)
        acc = I.newroot('T'); c.st.set(acc, EMPTY)
        ev = I.newroot('T'); c.st.set(ev, BOT)
        def consume(st, cond, v):
            v = I.deep(st, v)
            bad = is_variant(v, t['path'], badv)
            okty = t['args'][0]
            old = st.get(acc)
            st.set(acc, push(old, field(v, (good, 0), '0')))
            if res: st.set(ev, field(v, (1, 0), '0'))
            return bad
        outs = drive(c, s, consume)
        return finish(c, outs, lambda tg, st: (Ok if res else Some)(st.get(acc)) if tg == 'END' else (Err(st.get(ev)) if res else NoneV()))
    v = collect_seq(c, s)
    return app('collect', v, kind=c.kind(), ty=c.ty())
@it('unzip')
def _(c, s):
    I = c.I
    a1 = I.newroot('T'); a2 = I.newroot('T')
    c.st.set(a1, EMPTY); c.st.set(a2, EMPTY)
    def consume(st, cond, v):
        st.set(a1, push(st.get(a1), field(v, (0, 0), '0'))); st.set(a2, push(st.get(a2), field(v, (0, 1), '1'))); return FALSE
    return finish(c, drive(c, s, consume), lambda t, st: adt('tuple', 0, st.get(a1), st.get(a2)))
@it('partition')
def _(c, s):
    I = c.I
    a1 = I.newroot('T'); a2 = I.newroot('T')
    c.st.set(a1, EMPTY); c.st.set(a2, EMPTY)
    def consume(st, cond, v):
        p = boolterm(I.apply(c.args[1], [v], st, cond))
        x = st.get(a1); y = st.get(a2)
        st.set(a1, merge_val(p, push(x, v), x)); st.set(a2, merge_val(p, y, push(y, v))); return FALSE
    return finish(c, drive(c, s, consume), lambda t, st: adt('tuple', 0, st.get(a1), st.get(a2)))
def elemopt(c, s, v, nm, *extra):
    db = c.I.db
    t = db.ty(c.dty)
    e = t['args'][0] if t['k'] == 'adt' and t['args'] else None
    r = app(nm, v, *extra, kind=c.I.kind(e), ty=db.strip(e) if e is not None else None)
    return ite(is_empty(v), NoneV(), Some(r))
@it('min_by', 'max_by')
def _(c, s):
    v = collect_seq(c, s)
    db = c.I.db
    t = db.ty(c.dty); e = t['args'][0]
    fn = cmpfn(c, c.args[1], c.I.kind(e), db.strip(e))
    if c.I.kind(e) == 'real':
        if fn.kind == 'str':
            return ite(is_empty(v), NoneV(), Some(T.extreme((c.f['n'] == 'max_by') == (fn is string('natural')), v)))
    return elemopt(c, s, v, c.f['n'], fn)
@it('min', 'max')
def _(c, s):
    v = collect_seq(c, s)
    return elemopt(c, s, v, c.f['n'] + '_of')
@it('min_by_key', 'max_by_key')
def _(c, s):
    v = collect_seq(c, s)
    db = c.I.db
    t = db.ty(c.dty); e = t['args'][0]
    x, r = keyfn(c, c.args[1], c.I.kind(e), db.strip(e))
    y = fresh('y', x.kind, x.ty)
    fn = closeb('fn2', (), (x, y), (ordering(r, subst(r, {x: y}), False),))
    return elemopt(c, s, v, c.f['n'][:-4], fn)
@it('last')
def _(c, s):
    if has_filter(s):
        v = collect_seq(c, s); n = seqlen(v)
        return ite(ge(n, ONE), Some(select(v, sub(n, ONE))), NoneV())
    src, lo, hi, stg = sparts(s)
    g, v = elem(c, c.st, c.pc, s, sub(hi, ONE))
    return ite(lt(lo, hi), Some(v), NoneV())
@it('nth')
def _(c, s):
    if has_filter(s): return NotImplemented
    src, lo, hi, stg = sparts(s)
    i = add(lo, c.val(1))
    g, v = elem(c, c.st, c.pc, s, i)
    if c.args[0].op == 'ref': c.setref(0, mkstream(src, imin(add(i, ONE), hi), hi, stg))
    return ite(lt(i, hi), Some(v), NoneV())
@it('reduce')
def _(c, s):
    if len(c.args) == 3:
        I = c.I; kd = c.kind()
        if kd in NUM or kd == 'mat':
            x = fresh('x', kd); y = fresh('y', kd)
            zero = I.apply(c.args[1], [], c.st, c.pc)
            r = I.deep(c.st, I.apply(c.args[2], [x, y], c.st.copy(), c.pc))
            if r is add(x, y) and (T.isz(zero) if kd == 'mat' else zero is ZERO):
                # any grouping of the partial sums is the sum
                return M['iter.sum'](c)
            # one schedule of it, with what makes the others agree left as obligations
            z = fresh('z', kd); ap = lambda a, b: I.deep(c.st, I.apply(c.args[2], [a, b], c.st.copy(), c.pc))
            I.event('par_reduce', c.f['n'], [ap(zero, x), x, ap(ap(x, y), z), ap(x, ap(y, z))], c.pc)
            acc = I.newroot('T'); c.st.set(acc, zero)
            def consume(st, cond, v):
                st.set(acc, I.apply(c.args[2], [st.get(acc), v], st, cond)); return FALSE
            return finish(c, drive(c, s, consume), lambda t, st: st.get(acc))
        v = collect_seq(c, s)
        return app('par_reduce', v, c.I.deep(c.st, c.args[1]), c.I.deep(c.st, c.args[2]), kind=c.kind(), ty=c.ty())
    v = collect_seq(c, s)
    db = c.I.db
    t = db.ty(c.dty); e = t['args'][0]
    fn = cmpfn(c, c.args[1], c.I.kind(e), db.strip(e))
    return elemopt(c, s, v, 'reduce', fn)

# ------------------------------------------------------------------ the user's objective function and constraints
@model('ObjectiveFunction::evaluate', 'ParallelObjectiveFunction::evaluate_parallel')
def _(c):
    if 'body' in c.f: return NotImplemented
    x = c.I.deep(c.st, c.val(1)); f = c.I.deep(c.st, c.val(0))
    c.I.event('evaluate', c.f['n'], [f, x], c.pc)
    return app('objective', f, x, kind='real', ty=c.ty())
@model('Constraints::meets_constraints')
def _(c):
    if 'body' in c.f: return NotImplemented
    k = c.I.deep(c.st, c.val(0)); x = c.I.deep(c.st, c.val(1))
    c.I.event('constraint', 'meets_constraints', [k, x], c.pc)
    return boolterm(app('meets_constraints', k, x, kind='bool'))
@model('SymmetricEigen::try_new')
def _(c):
    m = c.I.deep(c.st, c.val(0))
    t = c.I.db.ty(c.dty); e = t['args'][0]
    a = app('eigen', m, c.val(1), c.val(2), kind='other', ty=c.I.db.strip(e))
    ok = boolterm(app('eigen_converges', m, c.val(1), c.val(2), kind='bool'))
    return ite(ok, Some(a), NoneV())
@model('SymmetricEigen::new')
def _(c):
    m = c.I.deep(c.st, c.val(0))
    return app('eigen', m, num(0), ZERO, kind='other', ty=c.ty())
@model('str::repeat')
def _(c): return app('repeat_str', c.val(0), c.val(1), kind='str')
@model('str::chars')
def _(c): return app('chars', c.val(0), kind='seq')
@model('slice::join', '[T]::join', 'Join::join')
def _(c): return app('join', c.I.deep(c.st, c.val(0)), c.val(1), kind='str')
