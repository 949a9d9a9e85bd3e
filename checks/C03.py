"""C03: the discretised covariance operator is the documented matrix of its kernel on the finite element space."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, spoly, any_sym, And
from .asmu import *
from .A02 import ngauss, V
from .A04 import exps2, lp2, double, semi, dofpoints
from . import C02
MODS = ['mesh', 'fem', 'function', 'assembler', 'spd', 'gmrf']
BOUNDS = ('interval meshes of 1-2 roots and quadrilateral meshes of 1-2 roots on a symbolic box (named kernels: also a fixed box), every 2:1 balanced history of 0-2 splits (1D) or 0-1 splits (2D), whole mesh and rooted '
          'sub-meshes, elements DQ0, DQ1, Q1 and Q2; discretisations "interpolation" and "galerkin"; kernels: every polynomial of degree 1 (1D also 2) in each point, with its coefficients passed as parameters; '
          'the named kernels (interpolation) with any parameters, also anisotropic and periodic')
OUTSIDE = ('named kernels with "galerkin" (not integrated exactly); "collocation" (known finding: it cannot be constructed); the eigendecomposition of the assembled matrix (C01; here it is any result); larger meshes')
ASSUMPTIONS = 'scipy.linalg.eigh returns (its result is not looked at here)'
TASK_S = 120; PATH_S = 60; MAX_PATHS = 100

def any_eigh(env, on):
    if env.symbolic:
        from symx import spshim
        spshim.ANY_EIGH = on

def cov(env, **kw):
    any_eigh(env, True)
    try: return M('gmrf').Covariance(**kw)
    finally: any_eigh(env, False)

def mul(A, B): return np.dot(np.array(A, dtype=object), np.array(B, dtype=object))

def massm(D, F, L):
    o = F.order(); ri = {g: i for i, g in enumerate(o)}
    W = np.empty((len(o), len(o)), dtype=object); W.fill(0)
    for c in L:
        for g, h, v in local(D, D.const(1), c, D.pat.box(c), (F, V), (F, V)): W[ri[g], ri[h]] = W[ri[g], ri[h]] + v
    return W

def common(env, C, D, F, disc, sub):
    L = D.leaves(sub)
    env.prove('size', C.get_size() == len(F.order()), (C.get_size(), len(F.order())))
    env.prove('mass matrix', C.has_mass_matrix())
    Mm = massm(D, F, L)
    env.eq('mass matrix', dense(C.get_mass_matrix()), Mm)
    return L, Mm

@balanced_only
def h_poly(env, disc, dim=1, nx=1, ny=None, k=0, first=(), el='Q1', deg=1, sub=None, sym=True):
    D = Dom(env, dim, nx, ny, (), k, first, subs=[sub] if sub else [])
    F = Fe(D, el, sub)
    q = spoly(env, 'k', exps2(dim, deg))
    co = dict(zip(q.e, q.c))
    if sym: q.c = [co[min(e, e[dim:] + e[:dim])] for e in q.e]
    par = {'c%d' % i: c for i, c in enumerate(q.c)}
    def f(x, y, **p):
        r = 0
        for i, e in enumerate(q.e):
            t = p['c%d' % i] * np.ones(x.shape[0]).astype(object if env.symbolic else float)
            for j, m in enumerate(e):
                for _ in range(m): t = t * (x[:, j] if j < dim else y[:, j - dim])
            r = r + t
        return r
    C = cov(env, dofhandler=F.dh, discretization=disc, subforest_flag=sub, cov_fn=f, parameters=par)
    L, Mm = common(env, C, D, F, disc, sub)
    lp = lp2(D, q); o = F.order()
    if disc == 'galerkin':
        terms = []
        for c in L:
            for d in L: terms += double(D, lp, c, d, (F, V), (F, V))
        compare(env, 'covariance operator', C.get_matrix(), o, o, terms)
    else:
        X = {g: x for g, x, c in dofpoints(F, L)}
        def val(x, y):
            r = 0
            for e, c in lp.t.items():
                t = Fr(1)
                for a, m in enumerate(e): t *= (x[a] if a < dim else y[a - dim]) ** m
                if t: r = r + c * num(env, t)
            return r
        K = np.array([[val(X[g], X[h]) for h in o] for g in o], dtype=object).reshape(len(o), len(o))
        env.eq('covariance operator', dense(C.get_matrix()), mul(Mm, mul(K, Mm.T)))
    env.prove('discretisation', C.discretization() == disc and C.dim() == dim and C.dofhandler() is F.dh and C.subforest_flag() == sub)

@balanced_only
def h_named(env, name, dim=1, nx=1, ny=None, k=0, el='Q1', sub=None, first=(), par=None, metric=None, box=False):
    """interpolation of the named kernels (whose values C02 decides)"""
    D = Dom(env, dim, nx, ny, (), k, first, subs=[sub] if sub else [], unit=True)
    F = Fe(D, el, sub); g = M('gmrf')
    p = dict(par or {})
    if name != 'rational': p['sgm'] = env.pos('sgm', Fr(1, 8), 8)
    if name in ('gaussian', 'exponential', 'matern'): p['l'] = env.pos('l', Fr(1, 8), 8)
    if metric: p['M'] = 3.0 if dim == 1 else np.array([[2.0, -1.0], [-1.0, 3.0]])
    if box: p.update(periodic=True, box=tuple([0.0, 1.5] * dim))
    C = cov(env, dofhandler=F.dh, discretization='interpolation', subforest_flag=sub, name=name, parameters=p)
    L, Mm = common(env, C, D, F, 'interpolation', sub)
    o = F.order(); P = {}
    for h, x, c in dofpoints(F, L): P[h] = [D.o[a] + D.u[a] * num(env, x[a]) for a in range(dim)]
    n = len(o)
    x = np.array([P[o[i]] for i in range(n) for j in range(n)], dtype=object).reshape(-1, dim); y = np.array([P[o[j]] for i in range(n) for j in range(n)], dtype=object).reshape(-1, dim)
    if not env.symbolic: x, y = x.astype(float), y.astype(float)
    K = np.asarray(getattr(g, name)(x, y, **p), dtype=object).reshape(n, n)
    want = mul(Mm, mul(K, Mm.T))
    if env.symbolic: env.eq('covariance operator', dense(C.get_matrix()), want)
    else: env.close('covariance operator', dense(C.get_matrix()), want, 1e-7)

def h_default(env):
    """the discretisation defaults to interpolation, and unknown ones are refused"""
    D = Dom(env, 1, 1, None, (), 0, ()); F = Fe(D, 'DQ0', None)
    C = cov(env, dofhandler=F.dh, name='constant', parameters={'sgm': env.pos('sgm')})
    env.prove('default', C.discretization() == 'interpolation')
    ok = False
    try: cov(env, dofhandler=F.dh, discretization='spectral', name='constant')
    except Exception: ok = True
    env.prove('unknown discretisation refused', ok)
    ok = False
    try: cov(env, dofhandler=F.dh)
    except AssertionError: ok = True
    env.prove('kernel required', ok)

@balanced_only
def h_colloc(env, el):
    D = Dom(env, 1, 1, None, (), 0, ()); F = Fe(D, el, None)
    C = cov(env, dofhandler=F.dh, discretization='collocation', name='constant', parameters={'sgm': env.pos('sgm')})
    L = D.leaves(None); o = F.order()
    lp = LP({(0, 0): env.pos('sgm')})
    terms = []
    for d in L: terms += semi(D, lambda c, e: lp, dofpoints(F, L), d, (F, V))
    compare(env, 'covariance operator', C.get_matrix(), o, o, terms)

def tasks(tier):
    th = tier == 'thorough'; T = [('h_default', {})]
    def add(**c): T.append(('h_poly', c))
    def nam(**c): T.append(('h_named', c))
    T.append(('h_colloc', dict(el='DQ0')))
    for disc in ('interpolation', 'galerkin'):
        for el in ('DQ0', 'DQ1', 'Q1', 'Q2'):
            add(disc=disc, dim=1, nx=1, k=1, el=el)
            add(disc=disc, dim=1, nx=2, k=0, el=el)
            if el in ('DQ0', 'Q1') or th:
                add(disc=disc, dim=1, nx=2, k=1, el=el); add(disc=disc, dim=1, nx=1, k=1, first=((0,),), el=el, sub='sub')
                add(disc=disc, dim=2, nx=1, ny=1, el=el); add(disc=disc, dim=2, nx=2, ny=1, el=el)
        add(disc=disc, dim=1, nx=1, k=2, el='Q1'); add(disc=disc, dim=1, nx=2, k=1, el='Q1', deg=2)
        add(disc=disc, dim=1, nx=1, k=1, el='Q1', sym=False)
        add(disc=disc, dim=2, nx=1, ny=1, k=1, el='DQ0'); add(disc=disc, dim=2, nx=1, ny=1, first=((0,),), k=0, el='DQ0', sub='sub')
        if th:
            add(disc=disc, dim=2, nx=2, ny=1, k=1, el='DQ0'); add(disc=disc, dim=2, nx=1, ny=1, k=1, el='Q1'); add(disc=disc, dim=1, nx=2, k=2, el='Q2')
            add(disc=disc, dim=2, nx=1, ny=1, first=((0,),), k=0, el='Q1', sub='sub')
    for name in ('constant', 'linear', 'gaussian', 'exponential', 'matern', 'rational'):
        for par in {'matern': [{'nu': 0.5}, {'nu': 1.5}, {'nu': 2.0}], 'rational': [{'a': 1.0}]}.get(name, [None]):
            kw = {'par': par} if par else {}
            nam(name=name, dim=1, nx=2, k=1, el='DQ0', **kw); nam(name=name, dim=1, nx=2, el='Q1', **kw)
            nam(name=name, dim=2, nx=2, ny=1, el='DQ0', **kw); nam(name=name, dim=2, nx=1, ny=1, el='Q1', **kw)
            nam(name=name, dim=1, nx=1, k=1, first=((0,),), el='Q1', sub='sub', **kw)
            if name != 'constant': nam(name=name, dim=1, nx=2, el='Q1', metric=True, **kw); nam(name=name, dim=2, nx=2, ny=1, el='DQ0', metric=True, **kw)
            if name not in ('constant', 'linear'): nam(name=name, dim=1, nx=2, k=1, el='Q1', box=True, **kw)
    return T
