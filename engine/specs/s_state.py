"""C12, C13, C14: the distribution update (src/state.rs, src/matrix.rs)"""
from core import *
from registry import prop, also

def facts(C):
    # individuals.len() = lambda >= weights.len() >= mu (established by C06 and C11)
    def f1(b): return sub(seqlen(b[3]), seqlen(C.F(b[2], 'weights.weights')))
    def f2(b): return sub(seqlen(C.F(b[2], 'weights.weights')), C.F(b[2], 'mu'))
    def f3(b): return sub(seqlen(b[3]), C.F(b[2], 'mu'))
    return [f1, f2, f3]

def update(C):
    r = C.cache.get('State::update')
    if r is None:
        bid = C.fn('State', 'update', sig=('&mut State', 'usize', '&Parameters', '&[EvaluatedPoint]'))
        r = C.run(bid, facts=facts(C), limit=100)
        C.cache['State::update'] = r
    C.analysed.setdefault(r.body['p'], r.stats)
    return r

class Spec: pass
def spec(C, r):
    s, evals, p, ind = r.a
    F = C.F
    X = Spec()
    n = F(p, 'dim'); mu = F(p, 'mu'); w = F(p, 'weights.weights')
    mueff = F(p, 'mu_eff'); cc = F(p, 'cc'); c1 = F(p, 'c1'); cs = F(p, 'cs'); cmu = F(p, 'cmu'); cm = F(p, 'cm'); ds = F(p, 'damp_s')
    step = lambda k: F(C.sel(ind, k), 'unscaled_step')
    yw = C.sum(mu, lambda k: mul(C.sel(w, k), step(k)))
    X.yw = yw
    sig = F(s, 'sigma')
    X.mean = add(F(s, 'mean'), mul(cm, sig, yw))
    isq = F(s, 'cov.sqrt_inv')
    X.ps = add(mul(sub(ONE, cs), F(s, 'path_sigma')), mul(sqrt(mul(cs, sub(num(2), cs), mueff)), mmul(isq, yw)))
    chi = mul(sqrt(n), add(ONE, neg(inv(mul(num(4), n))), inv(mul(num(21), n, n))))
    X.norm = m_norm(X.ps)
    gen = F(s, 'generation')
    corr = sqrt(sub(ONE, app('pow', sub(ONE, cs), mul(num(2), add(gen, ONE)), kind='real')))
    h = lt(div(X.norm, corr), mul(add(num(Q(7, 5)), div(num(2), add(n, ONE))), chi))
    X.hs = ite(h, ONE, ZERO)
    X.pc = add(mul(sub(ONE, cc), F(s, 'path_c')), mul(X.hs, sqrt(mul(cc, sub(num(2), cc), mueff)), yw))
    X.sigma = mul(sig, exp(mul(div(cs, ds), sub(div(X.norm, chi), ONE))))
    nw = seqlen(w)
    def rank(k):
        y = step(k); wk = C.sel(w, k)
        wk = ite(lt(wk, ZERO), mul(wk, n, power(m_norm(mmul(isq, y)), -2)), wk)
        return mul(wk, mmul(y, transpose(y)))
    dh = mul(sub(ONE, X.hs), cc, sub(num(2), cc))
    sw = C.sum(nw, lambda k: C.sel(w, k))
    X.cov = add(mul(add(ONE, mul(c1, dh), neg(c1), neg(mul(cmu, sw))), F(s, 'cov.cov')),
                mul(c1, mmul(X.pc, transpose(X.pc))), mul(cmu, C.sum(nw, rank)))
    X.full = app('symm_upper', X.cov, kind='mat')
    X.gap = ceil_usize(div(mul(num(Q(1, 2)), n, F(p, 'lambda')), mul(add(c1, cmu), n, n)))
    X.due = ge(evals, add(F(s, 'last_eigen_update_evals'), X.gap))
    return X

RULE = 'the value graph of State::update, for every input, equals the published equation field by field'
A = ['individuals.len() = lambda >= weights.len() >= mu (decided by C06 and C11)', 'nalgebra products, norms and SymmetricEigen behave as documented', 'real arithmetic']

@prop('C12', RULE, assume=A)
def c12(C):
    r = update(C); X = spec(C, r); p = r.post(0)
    ok = is_variant(r.ret, RES, 0)
    C.ob('mean', 'mean + cm*sigma*sum_{i<mu} w_i y_i', C.F(p, 'mean'), X.mean, facts=[ok], res=r)
    C.ob('path_sigma', '(1-cs) ps + sqrt(cs(2-cs)mu_eff) C^-1/2 y_w, from the old C', C.F(p, 'path_sigma'), X.ps, facts=[ok], res=r)
    C.ob('path_c', '(1-cc) pc + hs sqrt(cc(2-cc)mu_eff) y_w', C.F(p, 'path_c'), X.pc, facts=[ok], res=r)
    C.ob('sigma', 'sigma exp(cs/ds (|ps|/chi_n - 1))', C.F(p, 'sigma'), X.sigma, facts=[ok], res=r)

@prop('C13', RULE, assume=A)
def c13(C):
    r = update(C); X = spec(C, r); p = r.post(0)
    ok = is_variant(r.ret, RES, 0)
    C.ob('cov', 'rank-one plus rank-mu update with hs correction and rescaled negative weights, symmetrized from its upper triangle', C.F(p, 'cov.cov'), X.full, facts=[ok], res=r)

def as_written(C, r, X):
    """the updated matrix in the form the source decomposes it, when the two forms are equal"""
    out = {t.args[1] for t in find_all(r.ret, lambda t: t.op == 'app' and t.args[0] in ('eigen', 'eigen_converges'))}
    if len(out) != 1 or X.full in out: return X.full
    got = out.pop()
    try: same = compare(got, X.full, [], False, 20000) is None
    except (Budget, RecursionError, ZeroDivisionError): same = False
    return got if same else X.full
def eigen_spec(C, full):
    E = app('eigen', full, num(Q(1, 10**20)), ZERO)
    conv = boolterm(app('eigen_converges', full, num(Q(1, 10**20)), ZERO, kind='bool'))
    p = C.find_type('SymmetricEigen')
    E2 = T._mk('app', ('eigen', full, num(Q(1, 10**20)), ZERO), 'other', C.tyid[p])
    if E2.ty is None: E2.ty = C.tyid[p]
    vec = C.F(E2, 'eigenvectors'); val = C.F(E2, 'eigenvalues')
    x = fresh('x', 'mat')
    B = models.mapcols(vec, x, mscale(x, inv(m_norm(x))))
    y = fresh('y', 'real')
    d = mapm(val, y, sqrt(y))
    D = app('from_diag', d, kind='mat')
    z = fresh('z', 'real')
    Di = app('from_diag', mapm(d, z, ite(gt(z, ZERO), inv(z), z)), kind='mat')
    bad = C.any(seqlen(val), lambda k: le(select(val, k), ZERO))
    return b_and(conv, b_not(bad)), B, D, mmul(B, Di, transpose(B)), mmul(B, D)

@prop('C14', 'the eigendecomposition fields are one function of the symmetric covariance matrix, replaced together exactly when due', assume=A)
def c14_update(C):
    r = update(C); X = spec(C, r); p = r.post(0); s = r.a[0]
    ok, B, D, Ci, BD = eigen_spec(C, as_written(C, r, X))
    good = b_or(b_not(X.due), ok)
    C.ob('result', 'Err exactly when an update is due and the decomposition fails or an eigenvalue is not positive', is_variant(r.ret, RES, 0), good, res=r)
    for nm, new in (('eigenvectors', B), ('sqrt_eigenvalues', D), ('sqrt_inv', Ci), ('transform', BD)):
        C.ob(nm, 'recomputed exactly when due, from the updated symmetric matrix', C.F(p, 'cov.' + nm), ite(X.due, new, C.F(s, 'cov.' + nm)), facts=[good], res=r)
        C.ob(nm + '.failed', 'none of them is replaced alone when the decomposition fails', C.F(p, 'cov.' + nm), C.F(s, 'cov.' + nm), facts=[b_not(good)], res=r)
    C.ob('last_eigen_update_evals', 'the evaluation count of the last recomputation', C.F(p, 'last_eigen_update_evals'),
         ite(X.due, r.a[1], C.F(s, 'last_eigen_update_evals')), facts=[good], res=r)

@also('C03')
def o_generation(C):
    r = update(C); g = C.F(r.a[0], 'generation')
    C.ob('generation', 'one more exactly when the update is completed', C.F(r.post(0), 'generation'), ite(is_variant(r.ret, RES, 0), add(g, ONE), g), res=r)

def o_transform(C):
    r = update(C); X = spec(C, r); ok, B, D, Ci, BD = eigen_spec(C, as_written(C, r, X))
    C.ob('transform', 'the square-root factor of the covariance matrix, replaced when a decomposition is due', C.F(r.post(0), 'cov.transform'), ite(X.due, BD, C.F(r.a[0], 'cov.transform')), facts=[b_or(b_not(X.due), ok)], res=r, nan=False)
    r = C.run(C.fn('State', 'cov_transform'))
    C.ob('State.cov_transform', 'returns the stored factor', r.ret, C.F(r.a[0], 'cov.transform'), res=r)
also('C06')(o_transform)

@also('C14')
def c14_init(C):
    r = C.run(C.fn('State', 'new'))
    n = seqlen(r.a[0])
    I = app('identity', n, kind='mat')
    for nm in ('cov', 'eigenvectors', 'sqrt_eigenvalues', 'sqrt_inv', 'transform'):
        C.ob('init.' + nm, 'identity at the start', C.F(r.ret, 'cov.' + nm), I, res=r)
    C.ob('init.last', 'no evaluations before the first decomposition', C.F(r.ret, 'last_eigen_update_evals'), ZERO, res=r)

@also('C14')
def c14_access(C):
    r = C.run(C.fn('State', 'evals_per_eigen_update'))
    p = r.a[1]; n = C.F(p, 'dim')
    C.ob('gap', 'ceil(lambda n / (2 (c1+cmu) n^2)) evaluations between decompositions', r.ret,
         ceil_usize(div(mul(num(Q(1, 2)), n, C.F(p, 'lambda')), mul(add(C.F(p, 'c1'), C.F(p, 'cmu')), n, n))), res=r)
    r = C.run(C.fn('CMAES', 'generations_per_eigen_update'))
    p = C.F(r.a[0], 'parameters'); n = C.F(p, 'dim')
    gap = ceil_usize(div(mul(num(Q(1, 2)), n, C.F(p, 'lambda')), mul(add(C.F(p, 'c1'), C.F(p, 'cmu')), n, n)))
    C.ob('generations_gap', 'the same gap in generations', r.ret, ceil_usize(div(gap, C.F(p, 'lambda'))), res=r)
    for nm, f in (('cov', 'cov'), ('cov_eigenvectors', 'eigenvectors'), ('cov_sqrt_eigenvalues', 'sqrt_eigenvalues'), ('cov_transform', 'transform')):
        r = C.run(C.fn('State', nm))
        C.ob('access.' + nm, 'returns the stored field', r.ret, C.F(r.a[0], 'cov.' + f), res=r)

@also('C12')
def c12_init(C):
    r = C.run(C.fn('State', 'new'))
    C.ob('init.mean', 'starts at the initial mean', C.F(r.ret, 'mean'), r.a[0], res=r)
    C.ob('init.sigma', 'starts at the initial step size', C.F(r.ret, 'sigma'), r.a[1], res=r)
    for nm in ('path_c', 'path_sigma'): C.ob('init.' + nm, 'paths start at zero', C.F(r.ret, nm), MZERO, res=r)
