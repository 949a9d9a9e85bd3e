"""C02: the distance is the documented (periodic, anisotropic) metric, and the covariance functions are the documented functions of it."""
import math
import numpy as np
from fractions import Fraction as Fr
from .common import M, And, Or, Not, any_sym
MODS = ['mesh', 'fem', 'function', 'assembler', 'spd', 'gmrf']
BOUNDS = ('two pairs of points per call with any coordinates in [-8,8] (periodic: up to one period outside the box), any box, 1D and 2D; any positive metric coefficient and any symmetric positive definite '
          '2x2 metric; any standard deviation and range; Matern with shape 1/2, 1, 3/2, 2 and 5/2, rational with exponent 1/2, 1 and 2; plain arrays and evaluation through Explicit and Kernel')
OUTSIDE = ('the metric of periodic domains whose metric matrix has off-diagonal entries (only symmetry, invariance and definiteness are claimed there); singular metrics; other Matern shapes and exponents; '
           'positive definiteness of the kernels (a property of functions, not of this code); rounding')
ASSUMPTIONS = ('exp is positive, increasing and exp(0)=1; modified Bessel functions are infinite at zero, known in closed form for half-integer shapes and otherwise only satisfy 0 < t^nu K(t) <= 2^(nu-1) Gamma(nu)')
TASK_S = 100; PATH_S = 60; MAX_PATHS = 1000

def mat(env, a):
    a = np.array(a, dtype=object)
    return a if env.symbolic else a.astype(float)

def points(env, n, dim, tag, box=None, inside=False):
    P = []
    for i in range(n):
        r = []
        for j in range(dim):
            v = env.real('%s%d%d' % (tag, i, j), -8, 8)
            if box and inside:
                env.assume(v >= box[2 * j]); env.assume(v <= box[2 * j + 1])
            elif box:
                lo, hi = box[2 * j], box[2 * j + 1]
                env.assume(v >= lo - (hi - lo)); env.assume(v <= hi + (hi - lo))
            r.append(v)
        P.append(r)
    return mat(env, P)

def mkbox(env, dim, kind):
    """kind: None, 'unit' or 'any'"""
    if kind is None: return None
    if kind == 'unit': return tuple([0.0, 1.0] * dim)
    if kind == 'cell': return tuple([-1.0, 2.0, 1.0, 1.5][:2 * dim])
    b = []
    for j in range(dim):
        lo = env.real('lo%d' % j, -2, 2); w = env.pos('w%d' % j, Fr(1, 2), 4)
        b += [lo, lo + w]
    return tuple(b)

def metric(env, dim, kind):
    """(argument, matrix)"""
    if kind is None: return None, np.eye(dim)
    if dim == 1:
        m = env.pos('m', Fr(1, 16), 16)
        return m, mat(env, [[m]])
    a = env.pos('m0', Fr(1, 16), 16); c = env.pos('m1', Fr(1, 16), 16)
    b = 0.0
    if kind == 'full':
        b = env.real('m01', -16, 16); env.assume(a * c - b * b >= Fr(1, 16))
    if kind == 'fixed': return np.array([[2.0, -1.0], [-1.0, 3.0]]), np.array([[2.0, -1.0], [-1.0, 3.0]])
    X = mat(env, [[a, b], [b, c]])
    return X, X

def image(env, t, w):
    """t modulo w, of smallest absolute value"""
    for k in (0, 1, -1, 2, -2, 3, -3):
        s = t - k * w
        if env.is_true(And(s <= w / 2, s >= -w / 2)): return s
    raise ValueError('out of range')

def diffs(env, x, y, box):
    D = []
    for i in range(len(x)):
        r = []
        for j in range(x.shape[1]):
            t = x[i, j] - y[i, j]
            r.append(t if box is None else image(env, t, box[2 * j + 1] - box[2 * j]))
        D.append(r)
    return D

def quad(d, X):
    n = len(d)
    return sum(d[i] * X[i, j] * d[j] for i in range(n) for j in range(n))

def flat(a): return list(np.asarray(a, dtype=object).reshape(-1))

def same(env, what, got, want):
    env.eq(what, mat(env, got), mat(env, want))

def h_dist(env, dim, metric_, box, swap=True):
    """rows of d are ||x-y||_M of the nearest images"""
    g = M('gmrf')
    bx = mkbox(env, dim, box); m, X = metric(env, dim, metric_)
    n = 1 if box else 2
    x = points(env, n, dim, 'x', bx); y = points(env, n, dim, 'y', bx)
    kw = {} if m is None else {'M': m}
    if box: kw.update(periodic=True, box=bx)
    d = g.distance(x, y, **kw); f = flat(d)
    env.prove('one distance per row', len(f) == n, len(f))
    if len(f) != n: return
    D = diffs(env, x, y, bx)
    exact = not (box and metric_ in ('full', 'fixed'))
    for i in range(n):
        env.prove('not negative', f[i] >= 0)
        if exact: same(env, 'length of the difference in the metric', [f[i] * f[i]], [quad(D[i], X)])
        co = And(*[t == 0 for t in D[i]])
        if env.symbolic:
            env.prove('zero exactly for coinciding points', Or(And(f[i] == 0, co), And(f[i] != 0, Not(co))))
        elif env.is_true(co): env.prove('zero exactly for coinciding points', f[i] < 1e-7)
    same(env, 'symmetric', flat(g.distance(y, x, **kw)), f)
    if n > 1:
        for i in range(n): same(env, 'row by row', flat(g.distance(x[i:i + 1], y[i:i + 1], **kw)), [f[i]])
    same(env, 'points unchanged', x, points(env, n, dim, 'x', bx))

def h_shift(env, dim, metric_, box, k):
    """periodic: moving a point by whole periods changes nothing"""
    g = M('gmrf')
    bx = mkbox(env, dim, box); m, X = metric(env, dim, metric_)
    x = points(env, 1, dim, 'x', bx); y = points(env, 1, dim, 'y', bx)
    kw = {} if m is None else {'M': m}
    kw.update(periodic=True, box=bx)
    d = flat(g.distance(x, y, **kw))
    z = x.copy()
    for j in range(dim): z[0, j] = z[0, j] + k[j] * (bx[2 * j + 1] - bx[2 * j])
    e = flat(g.distance(z, y, **kw))
    same(env, 'invariant under periods', [t * t for t in e], [t * t for t in d])
    e = flat(g.distance(y, z, **kw))
    same(env, 'invariant under periods, second argument', [t * t for t in e], [t * t for t in d])

# ---------------------------------------------------------------- covariance functions
def oracle(env, name, p, x, y, m, X, bx):
    """documented value in each row, from the squared distance (None: unknown function) and its upper bound"""
    n, dim = x.shape
    D = diffs(env, x, y, bx) if name not in ('constant', 'linear') else None
    out = []
    for i in range(n):
        if name == 'constant': out.append(p['sgm']); continue
        if name == 'linear':
            out.append(p['sgm'] * p['sgm'] + sum(x[i, a] * X[a, b] * y[i, b] for a in range(dim) for b in range(dim))); continue
        q = quad(D[i], X)
        if name == 'rational':
            a = p['a']
            out.append(1 / (1 + q) ** int(a) if a == int(a) else ('sqrt', 1 / (1 + q))); continue
        s2 = p['sgm'] * p['sgm']; l = p['l']
        if name == 'gaussian': out.append(s2 * ex(env, -q / (2 * l * l))); continue
        r = rt(env, q)
        if name == 'exponential': out.append(s2 * ex(env, -r / l)); continue
        nu = p['nu']
        if nu == 0.5: out.append(s2 * ex(env, -r / l)); continue
        if nu == 1.5: t = math.sqrt(3) * r / l; out.append(s2 * (1 + t) * ex(env, -t)); continue
        if nu == 2.5: t = math.sqrt(5) * r / l; out.append(s2 * (1 + t + t * t / 3) * ex(env, -t)); continue
        out.append(None)
    return out

def ex(env, t):
    if env.symbolic:
        from symx.npshim import NP
        return NP.exp(t)
    return math.exp(t)
def rt(env, t):
    if env.symbolic:
        from symx.npshim import NP
        return NP.sqrt(t)
    return math.sqrt(t)

def h_cov(env, name, dim, metric_=None, box=None, via='direct', par=None):
    g = M('gmrf')
    f0 = getattr(g, name)
    p = dict(par or {})
    if name != 'rational': p['sgm'] = env.pos('sgm', Fr(1, 8), 8)
    if name in ('gaussian', 'exponential', 'matern'): p['l'] = env.pos('l', Fr(1, 8), 8)
    bx = mkbox(env, dim, box); m, X = metric(env, dim, metric_)
    if name != 'constant' and m is not None: p['M'] = m
    if box: p.update(periodic=True, box=bx)
    if via == 'direct': f = lambda x, y: f0(x, y, **p)
    else:
        E = M('function').Explicit(f=f0, parameters=p, n_variables=2, dim=dim)
        if via == 'kernel':
            K = M('assembler').Kernel(f=E); f = lambda x, y: K.eval((x, y))
        else: f = lambda x, y: E.eval((x, y))
    n = 1 if box else 2
    inside = dim == 2 and box
    x = points(env, n, dim, 'x', bx, inside); y = points(env, n, dim, 'y', bx, inside)
    c = flat(f(x, y))
    env.prove('one value per row', len(c) == n, len(c))
    if len(c) != n: return
    want = oracle(env, name, p, x, y, m, X, bx)
    for i in range(n):
        if want[i] is None: continue
        if isinstance(want[i], tuple): same(env, 'documented value', [c[i] * c[i]], [want[i][1]]); env.prove('positive', c[i] > 0)
        elif name == 'matern': env.close('documented value', [c[i]], [want[i]], p['sgm'] * p['sgm'] * Fr(1, 10**7) if env.symbolic else 1e-6 * p['sgm'] ** 2)
        else: same(env, 'documented value', [c[i]], [want[i]])
    same(env, 'symmetric', flat(f(y, x)), c)
    v = flat(f(x, x))
    if name not in ('linear', 'constant'):
        one = 1.0 if name == 'rational' else p['sgm'] * p['sgm']
        same(env, 'variance at coinciding points', v, [one] * n)
        for i in range(n):
            env.prove('positive', c[i] > 0 if env.symbolic else c[i] >= 0)
            env.le('at most the variance', c[i], one, tol=1e-9)
    if n > 1:
        for i in range(n): same(env, 'row by row', flat(f(x[i:i + 1], y[i:i + 1])), [c[i]])

PAR = {'matern': [{'nu': v} for v in (0.5, 1.0, 1.5, 2.0, 2.5)], 'rational': [{'a': 0.5}, {'a': 1.0}, {'a': 2}]}

def tasks(tier):
    out = []
    th = tier == 'thorough'
    for dim in (1, 2):
        ms = (None, 'pos') if dim == 1 else (None, 'diag', 'full', 'fixed')
        for m in ms:
            out.append(('h_dist', dict(dim=dim, metric_=m, box=None)))
            for b in ('unit', 'cell', 'any') if dim == 1 else ('unit', 'cell') + (('any',) if m is None or th else ()):
                out.append(('h_dist', dict(dim=dim, metric_=m, box=b)))
                if b == 'unit' and dim == 2 and not th: continue
                for k in ([1], [-2]) if dim == 1 else ([1, 0], [2, -1]) if m is None or th else ([1, -1],):
                    out.append(('h_shift', dict(dim=dim, metric_=m, box=b, k=k)))
        for name in ('constant', 'linear', 'gaussian', 'exponential', 'matern', 'rational'):
            for par in PAR.get(name, [None]):
                for m in ms:
                    if name == 'constant' and m: continue
                    for b in (None, 'unit', 'cell') if th else (None, 'cell'):
                        if b and name in ('constant', 'linear'): continue
                        if b and m in ('full', 'fixed'): continue
                        if m == 'full' and par in ({'nu': 2.5}, {'a': 2}) and not th: continue
                        for via in ('direct', 'kernel') if m in (None, 'pos', 'diag') and b != 'unit' else ('direct',):
                            cfg = dict(name=name, dim=dim, via=via)
                            if m: cfg['metric_'] = m
                            if b: cfg['box'] = b
                            if par: cfg['par'] = par
                            out.append(('h_cov', cfg))
                    if name in ('gaussian',) and not m: out.append(('h_cov', dict(name=name, dim=dim, via='explicit')))
    return out
