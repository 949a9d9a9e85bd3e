"""R01: samples of a Gaussian field are the mean plus a root of its covariance times white noise; conditional fields and samples
are those of the conditional distribution, and satisfy exact observations exactly."""
import contextlib, io
import numpy as np
from fractions import Fraction as Fr
from .common import M, And, Or, Not, any_sym
from .C01 import obj, mat, mm, dense, full_chol, same, sparse, tree_perm, rotation, inv_upper
MODS = ['mesh', 'fem', 'function', 'assembler', 'spd', 'gmrf']
BOUNDS = ('fields of size 1-3 (conditioning 1-3, with 1-2 observations) with any mean (several columns), any white noise, any positive definite covariance or precision given as a dense or sparse matrix, '
          'an eigendecomposition (default or zero lower bound), a generalised eigendecomposition with any mass matrix (size 1-2) or a Cholesky factorisation (dense; sparse with the permutation CHOLMOD chooses); '
          'semi-definite covariances and supports of lower dimension; any observation operator (dense, sparse, index arrays), one or several observed columns, exact or with any positive definite noise covariance')
OUTSIDE = ('larger fields; quality of the random numbers (the noise is an input); rounding; generalised (mass-weighted) precisions; reducing the support of fields with a mass matrix; conditional fields without any '
           'remaining freedom; chol_condition, the old classes GMRF and the second Covariance (calls of functions that do not exist), EllipticField and KLField')
ASSUMPTIONS = 'arithmetic is exact; library factorisations as in C01; numpy.random.normal (and standard_normal, randn) return the declared noise'
TASK_S = 150; PATH_S = 60; MAX_PATHS = 100

def I_(n): return np.eye(n).astype(int).astype(object)
def diag(d):
    D = np.zeros((len(d), len(d)), dtype=object)
    for i, v in enumerate(d): D[i, i] = v
    return D
def plan(env, C, B, d, V):
    if env.symbolic:
        from symx import spshim
        spshim.plan_eigh(C, B, d, V)
def arr(env, name, *shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(shape): a[i] = env.real(name + '_'.join(map(str, i)), -8, 8)
    return mat(env, a)

@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()): yield

class Noise(object):
    """white noise handed out by numpy's generator while active"""
    def __init__(self, *draws): self.draws = list(draws); self.used = 0
    def __enter__(self):
        self.old = {k: getattr(np.random, k) for k in ('normal', 'standard_normal', 'randn')}
        def give(shape):
            shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
            for k, d in enumerate(self.draws):
                if d.shape == shape: self.used += 1; return self.draws.pop(k)
            raise RuntimeError('unexpected draw of shape %r' % (shape,))
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: give(size)
        np.random.standard_normal = lambda size=None: give(size)
        np.random.randn = lambda *s: give(s)
        return self
    def __exit__(self, *a):
        for k, f in self.old.items(): setattr(np.random, k, f)

def lower(env, n, name='l', pat=None):
    L = np.zeros((n, n), dtype=object)
    for i in range(n):
        L[i, i] = env.pos('%s%d' % (name, i), Fr(1, 4), 4)
        for j in range(i):
            if pat is None or (j, i) in pat: L[i, j] = env.real('%s%d%d' % (name, i, j), -4, 4)
    return L

def field(env, n, kind, ncol=1, zeros=0):
    """(arguments of GaussianField, mode, covariance or None, precision or None, eigenpairs or None)"""
    spd = M('spd'); full_chol(env)
    k, _, how = kind.partition('-')                        # cov-eig, cov-eig0, cov-mat, cov-gen, cov-chol, prec-chol, prec-eig, prec-sparse, prec-mat
    key = 'covariance' if k == 'cov' else 'precision'
    full = {(i, j) for i in range(n) for j in range(i + 1, n)}
    E = None
    if how in ('mat', 'eig', 'eig0', 'gen') and not (k == 'prec' and how == 'mat'):
        s = [0 if i < zeros else env.real('s%d' % i, Fr(1, 4), 4) for i in range(n)]
        for i in range(zeros, n - 1): env.assume(s[i] <= s[i + 1])
        d = [v * v for v in s]; Q = rotation(env, n)
        if how == 'gen':
            U = lower(env, n, 'u').T; V = mm(inv_upper(U), Q); B = mm(U.T, U)
            C = mm(mm(B, V), mm(diag(d), mm(V.T, B)))
            plan(env, C, B, d, V)
            F = spd.EigenDecomposition(mat(env, C), mat(env, B), delta=0)
        else:
            V = Q; C = mm(V, mm(diag(d), V.T)); plan(env, C, None, d, V)
            F = mat(env, C) if how == 'mat' else spd.EigenDecomposition(mat(env, C), **({'delta': 0} if how == 'eig0' else {}))
        S = mm(V, mm(diag(d), V.T)); E = (d, V)
        return {key: F}, S, E
    # Cholesky
    if how == 'sparse':
        pat = full; p = tree_perm(n, pat)
        L = lower(env, n); W = np.zeros((n, n), dtype=object)
        for a in range(n): W[p[a]] = L[a]
        S = mm(W, W.T); F = sparse(env, S, pat)
    else:
        L = lower(env, n); S = mm(L, L.T); F = mat(env, S)
        if how == 'chol': F = spd.CholeskyDecomposition(F)
    return {key: F}, S, E

def gf(env, n, args, mean):
    with quiet(): return M('gmrf').GaussianField(n, mean=mean, **args)

def covid(env, what, B, S, prec):
    """BB' is the covariance S (or inverse of the precision S)"""
    K = mm(B, B.T)
    if prec: same(env, what, mm(S, K), I_(len(S)))
    else: same(env, what, K, S)

def modes(kind): return ('covariance',) if kind.startswith('cov') else ('precision', 'canonical')

def h_sample(env, n, kind, zeros=0, m=2):
    args, S, E = field(env, n, kind, zeros=zeros)
    mu = arr(env, 'mu', n, 2)
    u = gf(env, n, args, mu)
    env.prove('size', u.size() == n and u.get_size() == n)
    same(env, 'mean', u.get_mean(), mu); same(env, 'mean column', u.mean(col=1), mu[:, [1]]); same(env, 'mean copies', u.mean(n_copies=3), np.tile(mu[:, [0]], (1, 3)))
    I = mat(env, I_(n)); z = arr(env, 'z', n, m); w = arr(env, 'w', n, 3)
    for mode in modes(kind):
        R = obj(u.sample(z=I, mode=mode)) - obj(mu[:, [0]])
        env.prove('sample shape', R.shape == (n, n), R.shape)
        covid(env, 'root of the covariance', R, S, kind.startswith('prec'))
        want = obj(mu[:, [0]]) + mm(R, z)
        same(env, 'sample is mean plus root times noise', u.sample(z=z, mode=mode), want)
        same(env, 'number of samples from the noise', u.sample(n_samples=5, z=z, mode=mode), want)
        same(env, 'column of the mean', u.sample(z=z, mode=mode, m_col=1), obj(mu[:, [1]]) + mm(R, z))
        with Noise(w) as N: x = u.sample(n_samples=3, mode=mode)
        if N.used: same(env, 'sample with generated noise', x, obj(mu[:, [0]]) + mm(R, w))
        env.prove('number of samples', np.shape(x) == (n, 3))
    same(env, 'mean unchanged', u.get_mean(), mu)

def h_mean(env, n, kind):
    """mean and canonical mean"""
    args, S, E = field(env, n, kind)
    prec = kind.startswith('prec')
    mu = arr(env, 'mu', n, 1)
    b = mm(S, mu) if prec else None
    if not prec:
        b = arr(env, 'b', n, 1); mu = mat(env, mm(S, b))
    b = mat(env, b)
    u = gf(env, n, args, mu)
    u.compute_canonical_mean()
    same(env, 'canonical mean', u.get_canonical_mean(), b); same(env, 'canonical mean', u.b(), b)
    same(env, 'mean unchanged', u.get_mean(), mu)
    with quiet(): v = M('gmrf').GaussianField(n, canonical_mean=b, **args)
    v.compute_mean(); same(env, 'mean from canonical mean', v.get_mean(), mu)
    if prec:
        with quiet(): v = M('gmrf').GaussianField(n, canonical_mean=b, **args)
        z = mat(env, np.zeros((n, 1)).astype(int).astype(object))
        same(env, 'canonical samples have the mean', v.sample(z=z, mode='canonical'), mu)

def h_kl(env, n, kind, zeros=0):
    """parts of the Karhunen-Loeve expansion, and truncation"""
    args, S, (d, V) = field(env, n, kind, zeros=zeros)
    mu = arr(env, 'mu', n, 1)
    u = gf(env, n, args, mu)
    lo = u.get_covariance().get_eigenvalue_lower_bound()
    d = [v if env.is_true(v > lo) else lo for v in d]
    def part(a, b): return sum(mm(d[n - 1 - i] * V[:, [n - 1 - i]], V[:, [n - 1 - i]].T) for i in range(a, b + 1))
    for a in range(n):
        for b in [None] + list(range(a, n)):
            bb = n - 1 if b is None else b; k = bb - a + 1
            kw = {} if b is None else {'i_max': b}
            R = obj(u.KL_sample(i_min=a, z=mat(env, I_(k)), **kw)) - obj(np.tile(mu, (1, k)))
            if not zeros or kind == 'cov-eig0': same(env, 'covariance of the terms', mm(R, R.T), part(a, bb))
            z = arr(env, 'z%d%d' % (a, bb), k, 2)
            same(env, 'terms are linear in the noise', u.KL_sample(i_min=a, z=z, **kw), obj(mu) + mm(R, z))
    x = u.KL_sample(i_min=0, i_max=0, n_samples=4)
    env.prove('number of samples', np.shape(x) == (n, 4), np.shape(x))

def h_trunc(env, n, kind, level):
    args, S, (d, V) = field(env, n, kind)
    mu = arr(env, 'mu', n, 1)
    u = gf(env, n, args, mu)
    keep = range(n - level, n)
    T = sum((mm(d[i] * V[:, [i]], V[:, [i]].T) for i in keep), np.zeros((n, n), dtype=object))
    if kind == 'cov-gen':
        if n > 1: return
    plan(env, T, None, [0] * (n - level) + [d[i] for i in keep], V if kind != 'cov-gen' else I_(1))
    with quiet(): t = u.truncate(level)
    same(env, 'mean kept', t.get_mean(), mu)
    R = obj(t.sample(z=mat(env, I_(t.get_covariance().get_size())))) - obj(mu)
    same(env, 'covariance of the leading terms', mm(R, R.T), T)

# ---------------------------------------------------------------- conditioning
def solve_small(A, B):
    """A^-1 B for sizes 1 and 2"""
    A, B = obj(A), obj(B)
    if len(A) == 1: return B / A[0, 0]
    a, b, c, d = A[0, 0], A[0, 1], A[1, 0], A[1, 1]; q = a * d - b * c
    return mm(obj([[d / q, -b / q], [-c / q, a / q]]), B)

def inv_sym(S):
    n = len(S)
    if n == 1: return obj([[1 / S[0, 0]]])
    if n == 2: return solve_small(S, I_(2))
    c = np.zeros((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            r = [x for x in range(3) if x != i]; s = [x for x in range(3) if x != j]
            c[j, i] = (-1) ** (i + j) * (S[r[0], s[0]] * S[r[1], s[1]] - S[r[0], s[1]] * S[r[1], s[0]])
    q = S[0, 0] * c[0, 0] + S[0, 1] * c[1, 0] + S[0, 2] * c[2, 0]
    return c / q

def observe(env, n, k, form):
    """(argument, matrix)"""
    if form == 'index':
        ix = [n - 1, 0][:k]; A = np.zeros((k, n), dtype=object)
        for r, i in enumerate(ix): A[r, i] = 1
        return np.array(ix), A
    A = np.zeros((k, n), dtype=object)
    for i in range(k):
        for j in range(n): A[i, j] = env.real('a%d%d' % (i, j), -2, 2)
    if form == 'sparse': 
        sp = __import__('scipy.sparse', fromlist=['x'])
        if env.symbolic:
            from symx import spshim
            sp = spshim.SPARSE
        return sp.csr_matrix(mat(env, A)), A
    return mat(env, A), A

def regular(env, G):
    q = G[0, 0] if len(G) == 1 else G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
    env.assume(q >= Fr(1, 16))
    if len(G) == 2: env.assume(G[0, 0] >= Fr(1, 16))

def noise_cov(env, k, how):
    """(argument, matrix, root)"""
    if how is None: return 0, np.zeros((k, k), dtype=object)
    s = [env.real('k%d' % i, Fr(1, 4), 2) for i in range(k)]
    if k == 2: env.assume(s[0] <= s[1])
    if how == 'scalar': s = [s[0]] * k
    D = diag([v * v for v in s])
    V = I_(k)
    if how == 'full' and k == 2: V = rotation(env, 2, 'r')
    Ko = mm(V, mm(D, V.T)); plan(env, Ko, None, [v * v for v in s], V)
    if how == 'scalar': return s[0] * s[0], Ko
    return mat(env, Ko), Ko

def prior(env, n, kind):
    args, S, E = field(env, n, kind)
    K = inv_sym(S) if kind.startswith('prec') else S
    return args, K

def h_cond(env, n, k, kind, form='dense', noise=None, ecols=1):
    """samples of the conditional distribution"""
    args, K = prior(env, n, kind)
    Aarg, A = observe(env, n, k, form); karg, Ko = noise_cov(env, k, noise)
    G = mm(A, mm(K, A.T)) + Ko; regular(env, G)
    mu = arr(env, 'mu', n, 1); e = arr(env, 'e', k, ecols)
    u = gf(env, n, args, mu)
    KA = mm(K, A.T)
    mc = obj(mu) - mm(KA, solve_small(G, mm(A, mu) - obj(e)))
    Kc = K - mm(KA, solve_small(G, KA.T))
    zero = lambda r, c: mat(env, np.zeros((r, c)).astype(int).astype(object))
    kw = {} if noise is None else {'Ko': karg}
    for mode in modes(kind):
        def X(z, w):
            with Noise(*([] if w is None else [w])) as N, quiet(): x = u.condition(Aarg, e, z=z, mode=mode, **kw)
            if w is not None and not N.used: return None
            return obj(x)
        w0 = None if noise is None else zero(k, ecols)
        x0 = X(zero(n, ecols), w0)
        if x0 is None: return
        same(env, 'mean of the conditional samples', x0, mc)
        if ecols > 1: continue
        z = arr(env, 'z', n, 2)
        B = X(mat(env, I_(n)), None if noise is None else zero(k, n)) - x0
        x = X(z, None if noise is None else zero(k, 2))
        same(env, 'affine in the noise', x, x0 + mm(B, z))
        if noise is None:
            same(env, 'observations satisfied', mm(A, x), np.tile(obj(e), (1, 2)))
            KK = mm(B, B.T)
        else:
            W = X(zero(n, k), mat(env, I_(k))) - x0
            KK = mm(B, B.T) + mm(W, W.T)
        same(env, 'covariance of the conditional samples', KK, Kc)
        with Noise(arr(env, 'g', n, 3), arr(env, 'h', k, 3)) as N, quiet(): y = u.condition(Aarg, e, n_samples=3, mode=mode, **kw)
        env.prove('number of samples', np.shape(y) == (n, 3), np.shape(y))
        if noise is None: same(env, 'observations satisfied', mm(A, y), np.tile(obj(e), (1, 3)))

def cov_of(env, f):
    C = f.get_covariance(); n = C.get_size()
    return C, n

def h_cond_field(env, n, k, kind, form='dense', noise=None):
    """the conditional field"""
    args, K = prior(env, n, kind)
    karg, Ko = noise_cov(env, k, noise)
    if noise is None and n == 2:
        # direction of the observed functional given by an angle, so that the conditional covariance has known eigenvectors
        V = rotation(env, 2, 'q'); l = env.real('a', Fr(1, 4), 2)
        A = l * V[:, [0]].T; Aarg = mat(env, A)
    elif noise is None and n == 3 and k == 2:
        V = rotation(env, 3, 'q'); a = [env.real('a%d' % i, Fr(1, 4), 2) for i in range(2)]
        A = np.concatenate([a[0] * V[:, [0]].T, a[1] * V[:, [1]].T + a[0] * V[:, [0]].T]); Aarg = mat(env, A)
    else: Aarg, A = observe(env, n, k, form)
    G = mm(A, mm(K, A.T)) + Ko; regular(env, G)
    mu = arr(env, 'mu', n, 1); e = arr(env, 'e', k, 1)
    u = gf(env, n, args, mu)
    KA = mm(K, A.T)
    mc = obj(mu) - mm(KA, solve_small(G, mm(A, mu) - obj(e)))
    Kc = K - mm(KA, solve_small(G, KA.T))
    if noise is None:
        v = V[:, [n - 1]]; q = mm(v.T, mm(Kc, v))[0, 0]       # the only direction left
        for b in (Fr(1, 64), 0): env.assume(q >= b)
        env.assume(q > 1e-12)
        plan(env, Kc, None, [0] * (n - 1) + [q], V); plan(env, obj([[q]]), None, [q], I_(1))
    elif env.symbolic:
        from symx import spshim
        spshim.ANY_EIGH = True
    kw = {} if noise is None else {'Ko': karg}
    for mode in modes(kind)[:1]:
        try:
            with quiet(): f = u.condition(Aarg, e, output='field', mode=mode, **kw)
        finally:
            if env.symbolic:
                from symx import spshim
                spshim.ANY_EIGH = False
        same(env, 'mean of the conditional field', f.mean(), mc)
        C = f.get_covariance()
        if noise is None:
            m = C.get_size()
            R = obj(f.sample(z=mat(env, I_(m)))) - obj(f.mean())
            same(env, 'covariance of the conditional field', mm(R, R.T), Kc)
            x = f.sample(z=arr(env, 'z', m, 2))
            same(env, 'samples of the conditional field satisfy the observations', mm(A, x), np.tile(obj(e), (1, 2)))
        elif C is not None: same(env, 'covariance of the conditional field', C.get_matrix(), Kc)

# ---------------------------------------------------------------- support
def h_support(env, n, kind, zeros):
    """reducing the support keeps mean and covariance"""
    args, S, (d, V) = field(env, n, kind, zeros=zeros)
    mu = arr(env, 'mu', n, 1)
    u = gf(env, n, args, mu)
    k = n - zeros; keep = d[zeros:][::-1]
    P = np.zeros((k, k), dtype=object)
    for i in range(k): P[i, k - 1 - i] = 1
    plan(env, diag(keep), None, d[zeros:], P)
    with quiet(): u.update_support()
    W = obj(u.support())
    env.prove('dimension of the support', W.shape == (n, k), W.shape)
    if W.shape != (n, k): return
    same(env, 'orthonormal', mm(W.T, W), I_(k))
    R = obj(u.sample(z=mat(env, I_(k)))) - obj(mu)
    same(env, 'covariance kept', mm(R, R.T), S)
    x = arr(env, 'x', n, 2)
    p = obj(u.project(x)); q = obj(u.project(x, 'nullspace'))
    same(env, 'projections add up', p + q, x); same(env, 'covariance vanishes on the nullspace', mm(S, q), np.zeros((n, 2)).astype(int).astype(object))
    same(env, 'projection', obj(u.project(mat(env, p))), p)
    z = arr(env, 'z', k, 2)
    same(env, 'samples', u.sample(z=z), obj(mu) + mm(R, z))

def h_given(env, n, k, obs, noise=None):
    """support given by the user: the field is constant on the orthogonal complement"""
    V = rotation(env, n, 'q'); W = V[:, :k]
    L = lower(env, n); S = mm(V, mm(mm(L, L.T), V.T)); mu = arr(env, 'mu', n, 1)
    C = mm(W.T, mm(S, W))                                    # k = 1
    plan(env, C, None, [C[0, 0]], I_(1))
    with quiet(): u = M('gmrf').GaussianField(n, mean=mu, covariance=mat(env, S), support=mat(env, W))
    K = mm(W, mm(C, W.T))
    R = obj(u.sample(z=mat(env, I_(k)))) - obj(mu)
    same(env, 'covariance on the support', mm(R, R.T), K)
    if not obs: return
    A = arr(env, 'a', 1, n); e = arr(env, 'e', 1, 1); karg, Ko = noise_cov(env, 1, noise)
    G = mm(A, mm(K, A.T)) + Ko; regular(env, G)
    z = arr(env, 'z', k, 2); kw = {} if noise is None else {'Ko': karg}; w = arr(env, 'w', 1, 2)
    with Noise(w) as N, quiet(): x = obj(u.condition(A, e, z=z, **kw))
    if noise is None: same(env, 'observations satisfied', mm(A, x), np.tile(obj(e), (1, 2)))
    q = obj(u.project(mat(env, x - obj(mu)), 'nullspace'))
    same(env, 'constant off the support', q, np.zeros((n, 2)).astype(int).astype(object))

def tasks(tier):
    th = tier == 'thorough'; t = []
    kinds = ['cov-mat', 'cov-eig', 'cov-eig0', 'cov-gen', 'cov-chol', 'prec-mat', 'prec-chol', 'prec-eig0', 'prec-sparse']
    for n in (1, 2, 3):
        for kd in kinds:
            if n == 3 and kd in ('cov-gen',) and not th: continue
            t.append(('h_sample', dict(n=n, kind=kd))); t.append(('h_mean', dict(n=n, kind=kd))) if kd != 'cov-gen' else None
        for kd in ('cov-mat', 'cov-eig0', 'cov-gen'):
            if n == 3 and kd == 'cov-gen' and not th: continue
            t.append(('h_kl', dict(n=n, kind=kd)))
        for z in range(1, n): t += [('h_sample', dict(n=n, kind='cov-eig0', zeros=z)), ('h_kl', dict(n=n, kind='cov-eig0', zeros=z)), ('h_support', dict(n=n, kind='cov-eig0', zeros=z)), ('h_support', dict(n=n, kind='cov-mat', zeros=z))]
        for lv in range(1, n + 1): t.append(('h_trunc', dict(n=n, kind='cov-eig0', level=lv)))
    ck = ['cov-eig0', 'cov-gen', 'cov-chol', 'prec-chol', 'prec-eig0', 'prec-sparse']
    for kd in ck:
        for n, k in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
            if n == 3 and kd in ('cov-gen', 'cov-eig0', 'prec-eig0', 'prec-sparse') and not th: continue
            for form in ('dense', 'sparse', 'index'):
                if form == 'sparse' and (n, k) != (2, 1) and not th: continue
                if form == 'dense' and n == 3 and k == 2 and not th: continue
                if form == 'dense' and kd in ('cov-gen', 'cov-eig0', 'prec-eig0') and k == 2 and not th: continue
                for noise in (None, 'full') + (('scalar',) if (n, k) == (2, 2) else ()):
                    if noise and form == 'sparse' and kd != 'cov-chol' and not th: continue
                    t.append(('h_cond', dict(n=n, k=k, kind=kd, form=form, noise=noise)))
        t.append(('h_cond', dict(n=2, k=1, kind=kd, form='dense', ecols=2)))
        t.append(('h_cond', dict(n=2, k=1, kind=kd, form='index', ecols=2, noise='full')))
        for n, k in ((2, 1),) + (((3, 2),) if th else ()):
            t.append(('h_cond_field', dict(n=n, k=k, kind=kd)))
        for n, k in ((1, 1), (2, 1)): t.append(('h_cond_field', dict(n=n, k=k, kind=kd, noise='full')))
        t.append(('h_cond_field', dict(n=2, k=2, kind=kd, noise='full', form='index')))
    for n in (2, 3):
        t += [('h_given', dict(n=n, k=1, obs=o)) for o in (False, True)]
        t.append(('h_given', dict(n=n, k=1, obs=True, noise='full')))
    return t
