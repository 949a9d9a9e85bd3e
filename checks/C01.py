"""C01: a factorisation of a symmetric positive (semi-)definite matrix acts as the matrix: multiplying, solving, the root,
its transpose and their inverses, and the reconstruction all agree with each other and with the matrix."""
import itertools
import numpy as np
from fractions import Fraction as Fr
from .common import M, And, Or, Not, any_sym
MODS = ['spd']
BOUNDS = ('Cholesky: every positive definite matrix of size 1-3 (dense; sparse with every pattern up to 3x3 and some 4x4, with the fill-reducing permutation CHOLMOD chooses for it) and every '
          'semi-definite matrix of size 1-3 and every rank (dense and sparse), given by arbitrary real factors with entries in [-4,4]; eigendecomposition: every symmetric matrix of size 1-3 with '
          'eigenvalues in [0,16] (coinciding ones included), dense or sparse, with default, zero or any positive lower bound; generalised with any positive definite mass matrix of size 1-2 (3 thorough); '
          'arbitrary vectors, one- and two-dimensional, and sparse right hand sides of dot')
OUTSIDE = ('matrices larger than 3x3 (4x4); indefinite matrices; rounding and conditioning; the library factorisations themselves (stubs: the exact factor; CHOLMOD with the permutation it chooses for '
           'the pattern; LAPACK ldl with Bunch-Kaufman pivoting; eigh returns any eigendecomposition of the matrix); eigenvalues within 1e-3 of, but not equal to, zero where rank and nullspace are asked')
ASSUMPTIONS = 'arithmetic is exact, so a singular matrix is recognised as singular'
TASK_S = 200; PATH_S = 60; MAX_PATHS = 300

def obj(a): return np.array(a, dtype=object)
def mat(env, a):
    """array of the dtype the code expects"""
    a = obj(a)
    return a if env.symbolic else a.astype(float)
def mm(a, b): return np.dot(obj(a), obj(b))
def dense(a): return obj(a.toarray()) if hasattr(a, 'toarray') else obj(a)
def full_chol(env):
    if env.symbolic:
        from symx import spshim
        spshim.Chol.FULL = 4

def vec(env, n, name, m=None):
    if m is None: return mat(env, [env.real('%s%d' % (name, i)) for i in range(n)])
    return mat(env, [[env.real('%s%d_%d' % (name, i, j)) for j in range(m)] for i in range(n)])

def same(env, what, got, want, tol=None):
    got, want = dense(got), obj(want)
    env.prove(what + ': shape', got.shape == want.shape, (got.shape, want.shape))
    if got.shape != want.shape: return
    if env.symbolic: env.eq(what, got, want)
    else: env.close(what, got, want, 1e-6 * (1 + float(np.max(np.abs(want.astype(float)))) ) if want.size else 1e-6)

def sparse(env, a, pat):
    """csc matrix with the given stored entries"""
    sp = __import__('scipy.sparse', fromlist=['x'])
    n = len(a); ij = [(i, j) for j in range(n) for i in range(n) if i == j or (min(i, j), max(i, j)) in pat]
    I = [i for i, j in ij]; J = [j for i, j in ij]; v = mat(env, [a[i][j] for i, j in ij])
    if env.symbolic:
        from symx import spshim
        sp = spshim.SPARSE
    return sp.csc_matrix((v, (I, J)), shape=(n, n))

def act(env, F, H, n, name, exact_solve=True, sparse_rhs=False):
    """all operations of the factorisation F against the matrix H it stands for"""
    same(env, name + 'reconstruct', recon(F), H)
    for m in (None, 2) if n < 3 else (None,):
        x = vec(env, n, 'x' if m is None else 'X', m); Hx = mm(H, x)
        y = F.sqrt_dot(x, transpose=True)
        same(env, name + 'root times transposed root', F.sqrt_dot(y), Hx)
        if not exact_solve: continue
        same(env, name + 'solve inverts the matrix', F.solve(mat(env, Hx)), x)
        same(env, name + 'root inverse', F.sqrt_solve(F.sqrt_dot(x)), x)
        same(env, name + 'transposed root inverse', F.sqrt_solve(y, transpose=True), x)
        same(env, name + 'right inverse', F.sqrt_dot(F.sqrt_solve(x)), x)
        same(env, name + 'transposed right inverse', F.sqrt_dot(F.sqrt_solve(x, transpose=True), transpose=True), x)

def recon(F):
    r = F.reconstruct()
    return r[0] if isinstance(r, tuple) else r

def tree_perm(n, pat):
    """the permutation CHOLMOD chooses for this pattern"""
    import scipy.sparse as sp
    from sksparse.cholmod import cholesky
    m = np.eye(n) * (n + 1.0)
    for i, j in pat: m[i, j] = m[j, i] = 1
    return [int(i) for i in cholesky(sp.csc_matrix(m), mode='supernodal').P()]

def h_pd(env, n, form, pat=None):
    """positive definite: C = P'LL'P"""
    full_chol(env); spd = M('spd')
    pat = {(min(i, j), max(i, j)) for i, j in pat} if pat is not None else {(i, j) for i in range(n) for j in range(i + 1, n)}
    p = tree_perm(n, pat) if form == 'sparse' else list(range(n))
    L = np.zeros((n, n), dtype=object)
    q = {(a, b) for a in range(n) for b in range(a) if (min(p[a], p[b]), max(p[a], p[b])) in pat}
    for k in range(n):                                   # fill
        r = [a for a in range(k + 1, n) if (a, k) in q]
        q |= {(a, b) for a in r for b in r if a > b}
    for a in range(n):
        L[a, a] = env.pos('l%d' % a, Fr(1, 8), 4)
        for b in range(a):
            if (a, b) in q: L[a, b] = env.real('l%d%d' % (a, b), -4, 4)
    W = np.zeros((n, n), dtype=object)
    for a in range(n): W[p[a]] = L[a]
    C = mm(W, W.T)
    pat = {(min(p[a], p[b]), max(p[a], p[b])) for a, b in q}
    A = sparse(env, C, pat) if form == 'sparse' else mat(env, C)
    F = spd.CholeskyDecomposition(A)
    env.prove('not degenerate', not F.is_degenerate()); env.prove('sparsity kept', F.is_sparse() == (form == 'sparse'))
    env.prove('size', F.get_size() == n)
    same(env, 'matrix unchanged', F.get_matrix(), C)
    act(env, F, C, n, '')
    products(env, F, C, n, form)

def products(env, F, C, n, form):
    for m in (None, 1, 2):
        x = vec(env, n, 'y' if m is None else 'y%d' % m, m)
        same(env, 'dot', F.dot(x), mm(C, x))
    x = vec(env, n, 'z', 2)
    sp = __import__('scipy.sparse', fromlist=['x'])
    if env.symbolic:
        from symx import spshim
        sp = spshim.SPARSE
    same(env, 'dot with a sparse matrix', F.dot(sp.csc_matrix(x)), mm(C, x))

def h_psd(env, n, rank, form, rows=None, fix=None):
    """semi-definite: C = RR' with R n x rank (zero above the diagonal of the rows in the given order)"""
    full_chol(env); spd = M('spd')
    order = rows or list(range(n))
    R = np.zeros((n, rank), dtype=object)
    fixed = dict(zip([(0, 0), (1, 0), (2, 0)], [Fr(v) for v in fix or ()]))
    for a in range(n):
        for b in range(min(a + 1, rank)):
            if (a, b) in fixed: R[order[a], b] = fixed[a, b] if env.symbolic else float(fixed[a, b]); continue
            R[order[a], b] = env.real('r%d%d' % (a, b), 0 if a == b else -4, 4)
    for b in range(rank): env.assume(R[order[b], b] >= Fr(1, 8))
    C = mm(R, R.T) if rank else R.dot(R.T)
    if not rank: C = np.zeros((n, n), dtype=object)
    pat = {(i, j) for i in range(n) for j in range(i + 1, n)}
    A = sparse(env, C, pat) if form == 'sparse' else mat(env, C)
    F = spd.CholeskyDecomposition(A)
    if not env.symbolic and not F.is_degenerate(): env.assume(False)     # rounding made it definite
    env.prove('degenerate', F.is_degenerate()); env.prove('dense from here on', not F.is_sparse())
    same(env, 'matrix unchanged', F.get_matrix(), C)
    same(env, 'exact reconstruction', F.reconstruct(degenerate=True), C)
    products(env, F, C, n, form)
    if not rank: return
    H = dense(F.reconstruct())
    # the perturbation: positive semi-definite and small, unless a pivot was raised that other entries were divided by
    L, D, P, D0 = [dense(f) for f in F.get_factors()]
    lab = 'perturbation small'
    for k in range(n):
        if env.is_true(D[k, k] != D0[k, k]) and not env.is_true(And(*[And(L[i, k] <= 8, L[i, k] >= -8) for i in range(n)])): lab += ' although a small pivot was divided by'; break
    T = sum(C[i, i] for i in range(n))
    for i in range(n):
        env.le('perturbation not negative', 0, H[i, i] - C[i, i], tol=0 if env.symbolic else 1e-9)
        env.le(lab, H[i, i] - C[i, i], Fr(1, 10**5) * T if env.symbolic else 1e-5 * T)
    x = vec(env, n, 'x')
    y = F.sqrt_dot(x, transpose=True)
    if env.symbolic:
        act(env, F, H, n, 'perturbed ')
        return
    # rounding: the perturbed matrix has condition number 1e8
    nrm = float(np.max(np.abs(H.astype(float)))) * (1 + float(np.max(np.abs(x))))
    env.close('perturbed root times transposed root', F.sqrt_dot(y), mm(H, x), 1e-5 * nrm)
    b = mm(C, x).astype(float)
    env.close('perturbed solve inverts the matrix', mm(C, F.solve(b)), b, 1e-3 * nrm)
    s = F.sqrt_dot(x); env.close('perturbed root inverse', F.sqrt_dot(F.sqrt_solve(s)), s, 1e-4 * nrm)
    env.close('perturbed right inverse', F.sqrt_dot(F.sqrt_solve(s)), s, 1e-4 * nrm)
    env.close('perturbed transposed root inverse', F.sqrt_dot(F.sqrt_solve(y, transpose=True), transpose=True), y, 1e-4 * nrm)
    env.close('perturbed transposed right inverse', F.sqrt_dot(F.sqrt_solve(y, transpose=True), transpose=True), y, 1e-4 * nrm)

def rotation(env, n, name='t'):
    """every rotation except the half turns"""
    if n == 1: return obj([[1]])
    if n == 2:
        t = env.real(name, -8, 8); q = 1 + t * t
        return obj([[(1 - t * t) / q, -2 * t / q], [2 * t / q, (1 - t * t) / q]])
    a, b, c = [env.real('%s%d' % (name, i), -8, 8) for i in range(3)]
    q = 1 + a * a + b * b + c * c
    return obj([[(1 + a * a - b * b - c * c) / q, 2 * (a * b - c) / q, 2 * (a * c + b) / q],
                [2 * (a * b + c) / q, (1 - a * a + b * b - c * c) / q, 2 * (b * c - a) / q],
                [2 * (a * c - b) / q, 2 * (b * c + a) / q, (1 - a * a - b * b + c * c) / q]])

def h_eig(env, n, form, delta, gen=False, zeros=0, mform='dense', neg=False):
    """C = W'DW, M = W'W, W = QU: V = W^-1 are the eigenvectors, D = diag(s^2) ascending"""
    spd = M('spd')
    Q = rotation(env, n)
    s = [0 if i < zeros else env.real('s%d' % i, Fr(1, 8), 4) for i in range(n)]
    for i in range(zeros, n - 1): env.assume(s[i] <= s[i + 1])
    d = [v * v for v in s]
    if neg:                                          # slightly (or more) indefinite: the negative eigenvalues are raised too
        t = [env.real('t%d' % i, Fr(1, 8), 4) for i in range(zeros)]
        for i in range(zeros - 1): env.assume(t[i] >= t[i + 1])
        for i in range(zeros): d[i] = -t[i] * t[i]
    U = np.zeros((n, n), dtype=object)
    for i in range(n):
        U[i, i] = env.pos('u%d' % i, Fr(1, 4), 4) if gen else 1
        for j in range(i + 1, n):
            if gen: U[i, j] = env.real('u%d%d' % (i, j), -4, 4)
    Ui = inv_upper(U) if gen else U
    V = mm(Ui, Q); W = mm(Q.T, U); D = np.zeros((n, n), dtype=object)
    for i in range(n): D[i, i] = d[i]
    C = mm(W.T, mm(D, W)); Mm = mm(U.T, U)
    kw = {}
    if delta == 'zero': kw['delta'] = 0
    elif delta == 'any': e = env.pos('e', Fr(1, 16), 4); kw['delta'] = e * e
    full = {(i, j) for i in range(n) for j in range(i + 1, n)}
    A = sparse(env, C, full) if form == 'sparse' else mat(env, C)
    B = None
    if gen: B = sparse(env, Mm, full) if mform == 'sparse' else mat(env, Mm)
    if env.symbolic:
        from symx import spshim
        spshim.plan_eigh(C, Mm if gen else None, d, V)
    F = spd.EigenDecomposition(A, B, **kw)
    lo = F.get_eigenvalue_lower_bound()
    env.prove('size', F.get_size() == n)
    same(env, 'matrix unchanged', F.get_matrix(), C)
    if delta == 'zero': env.eq('lower bound', lo, 0)
    elif delta == 'any': env.eq('lower bound', lo, kw['delta'])
    else:
        fro = sum(C[i, j] * C[i, j] for i in range(n) for j in range(n))
        env.prove('lower bound', lo >= 0); env.eq('lower bound: sqrt(eps) times the norm', (lo * 2 ** 26) * (lo * 2 ** 26), fro)
    dd = F.get_eigenvalues(); VV = obj(F.get_eigenvectors())
    env.prove('number of eigenvalues', np.shape(dd) == (n,) and VV.shape == (n, n))
    want = [d[i] if env.is_true(d[i] > lo) else lo for i in range(n)][::-1]
    same(env, 'eigenvalues, largest first, at least the bound', dd, want)
    for i in range(n - 1): env.le('descending', dd[i + 1], dd[i], tol=0 if env.symbolic else 1e-9)
    I = np.eye(n).astype(int).astype(object)
    same(env, 'eigenvectors orthonormal', mm(VV.T, mm(Mm, VV)), I)
    D0 = np.zeros((n, n), dtype=object); D1 = np.zeros((n, n), dtype=object)
    for i in range(n): D0[i, i] = d[n - 1 - i]; D1[i, i] = want[i]
    same(env, 'eigenvectors', mm(C, VV), mm(Mm, mm(VV, D0)))
    if delta == 'zero':
        r = n - zeros
        env.prove('rank', int(F.get_rank()) == r, F.get_rank())
        N = obj(F.get_nullspace(1e-6)); R = obj(F.get_range(1e-6))
        env.prove('dimensions of range and nullspace', N.shape == (n, zeros) and R.shape == (n, r), (N.shape, R.shape))
        if zeros: same(env, 'nullspace', mm(C, N), np.zeros((n, zeros), dtype=object)); same(env, 'nullspace orthonormal', mm(N.T, mm(Mm, N)), I[:zeros, :zeros])
        if r and zeros: same(env, 'range orthogonal to nullspace', mm(N.T, mm(Mm, R)), np.zeros((zeros, r), dtype=object))
    H = mm(mm(Mm, VV), mm(D1, mm(Mm, VV).T))             # the matrix with raised eigenvalues
    K = mm(VV, mm(D1, VV.T))                             # covariance of the coefficients
    rc = F.reconstruct()
    if gen:
        env.prove('pair reconstructed', isinstance(rc, tuple) and len(rc) == 2)
        same(env, 'mass matrix', rc[1], Mm); rc = rc[0]
    same(env, 'reconstruct', rc, H)
    if not zeros and delta != 'any': same(env, 'reconstructs the matrix', rc, C) if all(env.is_true(v > lo) for v in d) else None
    for m in (None, 2) if n < 3 else (None,):
        x = vec(env, n, 'x' if m is None else 'X', m); Hx = mm(H, x)
        same(env, 'dot', F.dot(x), Hx)
        y = F.sqrt_dot(x, transpose=True)
        same(env, 'root times transposed root', F.sqrt_dot(y), mm(K, x))
        deg = zeros and delta == 'zero'
        if not deg:
            same(env, 'solve inverts dot', F.solve(mat(env, Hx)), x)
            if gen: same(env, 'generalised solve', mm(H, F.solve(x, generalized=True)), mm(Mm, x))
            if zeros and delta is None: continue          # roots of 1e-8: below
            same(env, 'root inverse', F.sqrt_solve(F.sqrt_dot(x)), x)
            same(env, 'transposed root inverse', F.sqrt_solve(y, transpose=True), x)
            same(env, 'right inverse', F.sqrt_dot(F.sqrt_solve(x)), x)
        else:
            # pseudo inverse
            sx = F.solve(mat(env, Hx)); same(env, 'pseudo inverse', mm(H, sx), Hx)
            same(env, 'smallest solution', mm(mm(N.T, Mm), sx), np.zeros((zeros,) + sx.shape[1:], dtype=object))
            z = F.sqrt_dot(x); same(env, 'root pseudo inverse', F.sqrt_dot(F.sqrt_solve(z)), z)
            same(env, 'transposed root pseudo inverse', F.sqrt_dot(F.sqrt_solve(y, transpose=True), transpose=True), y)

def inv_upper(U):
    n = len(U); X = np.zeros((n, n), dtype=object)
    for j in range(n):
        for i in range(j, -1, -1):
            r = 1 if i == j else 0
            for k in range(i + 1, j + 1): r = r - U[i, k] * X[k, j]
            X[i, j] = r / U[i, i]
    return X

PATS3 = [[], [(0, 1)], [(0, 2)], [(1, 2)], [(0, 1), (0, 2)], [(0, 1), (1, 2)], [(0, 2), (1, 2)], [(0, 1), (0, 2), (1, 2)]]
PATS4 = [[(0, 1), (0, 3), (2, 3)], [(0, 2), (0, 3), (1, 3)], [(0, 1), (0, 2), (0, 3)], [(0, 1), (1, 2), (2, 3)]]

FIX = [(1, 0, 0), (1, '1/2', '-1/2'), ('1/2', -3, '1/2'), (1, 2, -1)]

def tasks(tier):
    th = tier == 'thorough'; t = []
    for n in (1, 2, 3): t.append(('h_pd', dict(n=n, form='dense')))
    t += [('h_pd', dict(n=n, form='sparse', pat=[])) for n in (1,)] + [('h_pd', dict(n=2, form='sparse', pat=p)) for p in ([], [(0, 1)])]
    t += [('h_pd', dict(n=3, form='sparse', pat=p)) for p in PATS3]
    t += [('h_pd', dict(n=4, form='sparse', pat=p)) for p in (PATS4 if th else PATS4[:2])]
    if th: t.append(('h_pd', dict(n=4, form='dense')))
    for form in ('dense', 'sparse'):
        for n in (1, 2, 3):
            for r in range(n):
                if th or (n, r) != (3, 2): t.append(('h_psd', dict(n=n, rank=r, form=form)))
        t.append(('h_psd', dict(n=2, rank=1, form=form, rows=[1, 0])))
        for o in ([2, 1, 0], [1, 2, 0], [0, 2, 1]):
            t.append(('h_psd', dict(n=3, rank=1, form=form, rows=o)))
            if th: t.append(('h_psd', dict(n=3, rank=2, form=form, rows=o)))
    for o in itertools.permutations(range(3)):
        for fx in FIX: t.append(('h_psd', dict(n=3, rank=2, form='dense', rows=list(o), fix=fx)))
    t.append(('h_psd', dict(n=3, rank=2, form='sparse', rows=[1, 2, 0], fix=FIX[1])))
    for n in (1, 2, 3):
        for delta in (None, 'zero', 'any'):
            for z in range(n + 1 if delta == 'zero' else n):
                t.append(('h_eig', dict(n=n, form='dense', delta=delta, zeros=z)))
    t += [('h_eig', dict(n=n, form='dense', delta=d, zeros=z, neg=True)) for n in (1, 2) for d in (None, 'any') for z in range(1, n + 1 if d else n)]
    t += [('h_eig', dict(n=2, form='sparse', delta=d, zeros=z)) for d in (None, 'zero') for z in (0, 1)]
    for n in (1, 2) + ((3,) if th else ()):
        for delta in (None, 'zero', 'any'):
            for z in range(n):
                if th or n == 1 or delta or z: t.append(('h_eig', dict(n=n, form='dense', delta=delta, gen=True, zeros=z)))
    t += [('h_eig', dict(n=2, form='sparse', delta='zero', gen=True, zeros=0, mform='sparse'))]
    return t
