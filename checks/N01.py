"""N01: finite element functions take, at every point, the value of the local polynomial through their nodal values,
and the true derivatives; nodal functions of polynomials reproduce them; every sample column and point by itself."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, rows, spoly, poly_deg, any_sym, And, Or, Not
from .meshu import Pat, node, grow, build, qmesh, imesh
from .genu import GPat, gmesh, CellMap, qmul, qadd, qtensor, bilin
from .M04 import mark_sub
from .F02 import fe, nodes_of
MODS = ['mesh', 'fem', 'function']
BOUNDS = ('interval meshes of 1-3 roots and quadrilateral meshes of up to 2x2 roots, every history of up to 2 splits (depth 2), periodic or not, whole mesh and every rooted '
          'sub-mesh; elements DQ0, Q1-Q3, DQ1, DQ2; arbitrary (symbolic) nodal values in 1-3 sample columns or polynomials of the space with arbitrary coefficients; '
          '1-2 points anywhere in the domain (symbolic), all first and second derivatives; functions of one and two variables; points only, points and cell, shape functions and dofs; general quadrilaterals: 1-5 cells around a vertex, in a ring or alone, any starting corners for 2 cells, every affine scaling, five points per cell')
OUTSIDE = 'triangles; general quadrilaterals beyond the layouts, points and affine images listed (there, derivative functions of non-polynomials are interpolated and only checked for polynomials); deeper histories; points outside the domain'
ASSUMPTIONS = 'on the common boundary of cells (points within 1e-6 of it) the value may be that of either cell, up to 1e-2 for nodal values in [-8,8]'
EPS = 1e-6
TASK_S = 200; PATH_S = 60

def ders(dim):
    return [(0,), (1, 0), (2, 0, 0)] if dim == 1 else [(0,), (1, 0), (1, 1), (2, 0, 0), (2, 0, 1), (2, 1, 0), (2, 1, 1)]

# ---- oracle: tensor Lagrange polynomials as coefficient lists over the fractions
def lag1(nodes, i, der):
    co = [Fr(1)]
    for j, n in enumerate(nodes):
        if j == i: continue
        f = 1 / (nodes[i] - n)
        new = [Fr(0)] * (len(co) + 1)
        for k, v in enumerate(co): new[k] -= v * n * f; new[k + 1] += v * f
        co = new
    for _ in range(der): co = [k * co[k] for k in range(1, len(co))] or [Fr(0)]
    return co

def horner(co, t, env):
    r = 0
    for c in reversed(co): r = r * t + (c if env.symbolic else float(c))
    return r

class Loc(object):
    """basis of the element on the unit cell (Lagrange on its nodes), in pattern coordinates"""
    def __init__(self, env, e, dim):
        self.env = env; self.dim = dim
        self.ref = np.array(e.reference_nodes(), dtype=float).reshape(e.n_dofs(), -1)
        k = e.polynomial_degree(); self.g = [Fr(i, k) for i in range(k + 1)] if k else [Fr(1, 2)]
        self.idx = [tuple(self.g.index(Fr(float(x)).limit_denominator(12)) for x in r) for r in self.ref]
    def val(self, box, D, p, der):
        """sum_j D_j d^der L_j at p (pattern units) on the cell with the given box"""
        vs = list(der[1:]); n = [vs.count(k) for k in range(self.dim)]
        t = [(x - (lo if self.env.symbolic else float(lo))) / ((hi - lo) if self.env.symbolic else float(hi - lo)) for x, (lo, hi) in zip(p, box)]
        h = 1
        for k, (lo, hi) in enumerate(box): h = h * (hi - lo) ** n[k]
        ax = [[horner(lag1(self.g, i, n[k]), t[k], self.env) for i in range(len(self.g))] for k in range(self.dim)]
        r = 0
        for d, ix in zip(D, self.idx):
            v = d
            for k in range(self.dim): v = v * ax[k][ix[k]]
            r = r + v
        return r / (h if self.env.symbolic else float(h))

class Unbalanced(Exception): pass

def balanced_only(h):
    def f(env, **kw):
        try: h(env, **kw)
        except Unbalanced: pass
    f.__name__ = h.__name__
    return f

class Setup(object):
    def __init__(self, env, dim, nx, ny, per, k, first, el, sub, unit=True, maxd=2, geo=None):
        self.env = env; self.dim = dim
        if geo: mesh, pat, X = gmesh(env, unit=unit, **geo)
        else: mesh, pat, X = qmesh(env, nx, ny, per, unit) if dim == 2 else imesh(env, nx, bool(per), unit)
        for c in first: node(mesh, c).split(); pat.split(c)
        grow(env, pat, mesh, k, maxd)
        self.mesh, self.pat, self.X = mesh, pat, X
        if dim == 2 and not mesh.is_balanced(): raise Unbalanced()
        m = M('fem'); self.e = e = fe(dim, el)
        mk = mark_sub(env, mesh, pat, 'sub') if sub else {c: True for c in pat.cells}
        self.flag = 'sub' if sub else None
        kw = dict(subforest_flag='sub') if sub else {}
        self.cells = [c for c in pat.cells if bool(mk[c])]
        self.leaves = [c for c in self.cells if c not in pat.split_set or not bool(mk[c + (0,)])]
        self.dh = m.DofHandler(mesh, e); self.dh.distribute_dofs()
        self.dh.set_dof_vertices()
        self.basis = m.Basis(self.dh, subforest_flag=self.flag)
        self.dofs = [int(d) for d in self.basis.dofs()]
        self.gd = {c: [int(g) for g in self.dh.get_cell_dofs(node(mesh, c))] for c in self.cells}
        self.loc = Loc(env, e, dim); self.el = el
    def data(self, ns, name='d'):
        a = np.empty((len(self.dofs), ns), dtype=object if self.env.symbolic else float)
        for i in range(len(self.dofs)):
            for s in range(ns): a[i, s] = self.env.real('%s%d_%d' % (name, i, s))
        return a
    def at(self, c, D, p, der, s):
        """value of the function with nodal values D (rows as dofs) on cell c"""
        return self.loc.val(self.pat.box(c), [D[self.dofs.index(g), s] for g in self.gd[c]], p, der)
    def point(self, name):
        """a point anywhere in the domain, in pattern units, and the leaf whose interior (or whose closure, None) it is in"""
        env = self.env; n = (self.pat.nx, self.pat.ny)
        p = [env.real('%s%d' % (name, k), 0, n[k]) for k in range(self.dim)]
        return p, self.where(p)
    def where(self, p):
        env = self.env
        for c in self.leaves:
            b = self.pat.box(c)
            if env.is_true(And(*[And(x >= float(lo) + EPS, x <= float(hi) - EPS) for x, (lo, hi) in zip(p, b)])): return c
        return None
    def interior_point(self, name, c):
        """a point strictly inside the given leaf"""
        p = [self.env.real('%s%d' % (name, k)) for k in range(self.dim)]
        for x, (lo, hi) in zip(p, self.pat.box(c)): self.env.assume(And(x >= float(lo) + EPS, x <= float(hi) - EPS))
        return p

def on_interface(env, S, D, p, v, ns, der):
    """value of one of the cells around"""
    cand = []
    for c in S.leaves:
        b = S.pat.box(c)
        if env.is_true(And(*[And(x >= float(lo) - EPS, x <= float(hi) + EPS) for x, (lo, hi) in zip(p, b)])): cand.append(c)
    env.prove('in some cell', bool(cand))
    tol = 1e-2
    def near(a, b): return And(a - b <= tol, b - a <= tol)
    env.prove('value of an adjacent cell %s' % (der,), Or(*[And(*[near(v[s], S.at(c, D, p, der, s)) for s in range(ns)]) for c in cand]), (cand,))

@balanced_only
def h_point(env, dim=1, nx=2, ny=None, per=(), k=1, first=(), el='Q1', sub=False, ns=2, np_=1, derivs=False, maxd=2, inside=False):
    S = Setup(env, dim, nx, ny, per, k, first, el, sub, maxd=maxd)
    F = M('function').Nodal(data=None if False else (D := S.data(ns)), basis=S.basis)
    env.prove('samples', F.n_samples() == ns)
    if inside:
        c = env.choice('leaf', S.leaves); P = [(S.interior_point('p%d' % i, c), c) for i in range(np_)]
    else: P = [S.point('p%d' % i) for i in range(np_)]
    if any(c is None for p, c in P):
        for i in range(len(S.dofs)):
            for s in range(ns): env.assume(And(D[i, s] <= 8, D[i, s] >= -8))
    X = rows([p for p, c in P])
    for der in (ders(dim) if derivs else [(0,)]):
        if el == 'DQ0' and der != (0,) : continue
        v = F.eval(X) if der == (0,) and not derivs else F.eval(X, derivative=der)
        env.prove('shape', np.shape(v) == (np_, ns), np.shape(v))
        for i, (p, c) in enumerate(P):
            if c is not None:
                env.eq('value on the cell %s' % (der,), [v[i, s] for s in range(ns)], [S.at(c, D, p, der, s) for s in range(ns)], (c, p))
            else: on_interface(env, S, D, p, v[i], ns, der)

@balanced_only
def h_cell(env, dim=1, nx=2, ny=None, per=(), k=1, first=(), el='Q1', sub=False, ns=2, np_=2):
    """evaluation with a given cell, and with given shape functions and dofs"""
    S = Setup(env, dim, nx, ny, per, k, first, el, sub)
    D = S.data(ns); F = M('function').Nodal(data=D, basis=S.basis)
    c = env.choice('leaf', S.leaves); cell = node(S.mesh, c)
    P = [S.interior_point('p%d' % i, c) for i in range(np_)]; X = rows(P)
    for der, name in zip(ders(dim), ('f', 'fx', 'fxx') if dim == 1 else ('f', 'fx', 'fy', 'fxx', 'fxy', 'fyx', 'fyy')):
        if el == 'DQ0' and der != (0,): continue
        want = np.array([[S.at(c, D, p, der, s) for s in range(ns)] for p in P], dtype=object)
        env.eq('cell given %s' % (der,), F.eval(X, cell=cell, derivative=name), want)
        R, mg = cell.reference_map(X, mapsto='reference', jac_p2r=True, hess_p2r=True)
        phi = S.e.shape(R, cell=cell, derivatives=der, jac_p2r=mg['jac_p2r'], hess_p2r=mg['hess_p2r'])
        env.eq('shape functions given %s' % (der,), F.eval(phi=phi, dofs=list(S.gd[c])), want)
    # all the points of the closed cell, when the cell is given
    q = [env.real('q%d' % i) for i in range(dim)]
    for x, (lo, hi) in zip(q, S.pat.box(c)): env.assume(And(x >= float(lo), x <= float(hi)))
    env.eq('closed cell', F.eval(rows([q]), cell=cell), np.array([[S.at(c, D, q, (0,), s) for s in range(ns)]], dtype=object))

def polyfun(q):
    def f(x, a=0):
        out = np.empty((len(x), 1), dtype=object if any_sym(x) or any_sym(list(q.c)) else float)
        for i in range(len(x)): out[i, 0] = q(*x[i]) * (1 + a)
        return out
    return f

@balanced_only
def h_poly(env, dim=1, nx=2, ny=None, per=(), k=1, first=(), el='Q1', sub=False, unit=False):
    """a nodal function built from a polynomial of the element's space evaluates to it, anywhere, with its derivatives"""
    S = Setup(env, dim, nx, ny, per, k, first, el, sub, unit=unit); e = S.e; fn = M('function')
    q = spoly(env, 'q', poly_deg(dim, e.polynomial_degree()))
    how = env.choice('how', ['nodal', 'nodal samples', 'interpolant', 'reinterpolated'])
    if how == 'nodal': F = fn.Nodal(f=polyfun(q), basis=S.basis, dim=dim); fac = [1]
    elif how == 'nodal samples': F = fn.Nodal(f=polyfun(q), parameters=[{}, {'a': 2}], basis=S.basis, dim=dim); fac = [1, 3]
    else:
        ex = fn.Explicit(polyfun(q), dim=dim); fac = [1]
        F = ex.interpolant(S.dh, subforest_flag=S.flag)
        if how == 'reinterpolated':
            d2 = M('fem').DofHandler(S.mesh, fe(dim, 'Q3' if el != 'DQ0' else 'DQ1')); F = F.interpolant(d2)
    env.prove('samples', F.n_samples() == len(fac))
    c = env.choice('leaf', S.leaves)
    p = S.interior_point('p', c); x = S.X(p)
    D = ders(dim) if el != 'DQ0' else [(0,)]
    for der in D:
        v = F.eval(rows([x]), derivative=der)
        g = q
        for a in der[1:]: g = g.d(a)
        env.eq('reproduces %s' % (der,), v, np.array([[g(*x) * f for f in fac]], dtype=object))

@balanced_only
def h_diff(env, dim=1, nx=2, ny=None, per=(), k=1, first=(), el='Q1', sub=False, ns=2):
    """the derivative as a function: on every cell the derivative of the function there"""
    S = Setup(env, dim, nx, ny, per, k, first, el, sub)
    D = S.data(ns); F = M('function').Nodal(data=D, basis=S.basis)
    c = env.choice('leaf', S.leaves); p = S.interior_point('p', c)
    for der in ders(dim)[1:]:
        G = F.differentiate(der)
        v = G.eval(rows([p]))
        env.eq('derivative %s' % (der,), v, np.array([[S.at(c, D, p, der, s) for s in range(ns)]], dtype=object), c)

@balanced_only
def h_change(env, dim=1, nx=2, ny=None, k=1, el='Q1', sub=False):
    """later changes of the data: samples added, values of one sample replaced"""
    S = Setup(env, dim, nx, ny, (), k, (), el, sub); fn = M('function')
    D = S.data(2); F = fn.Nodal(data=D.copy(), basis=S.basis)
    E = S.data(1, 'e')
    how = env.choice('how', ['add', 'addvec', 'all', 'default', 'some', 'one', 'empty', 'replace', 'vector', 'poly'])
    idx = list(range(len(S.dofs)))
    if how in ('add', 'addvec'):
        F.add_samples(E if how == 'add' else E[:, 0]); W = np.hstack([D, E])
    elif how == 'empty':                         # no data at first
        F = fn.Nodal(basis=S.basis); F.add_samples(E[:, 0].copy()); F.add_samples(D[:, 1].copy()); W = np.hstack([E, D[:, 1:]])
    elif how == 'replace': F.set_data(data=E[:, 0].copy()); W = E
    elif how == 'vector': F = fn.Nodal(data=E[:, 0].copy(), basis=S.basis); W = E
    elif how == 'poly':
        if el == 'DQ0': return
        q = spoly(env, 'q', [(i,) for i in range(2)] if dim == 1 else [(0, 0), (1, 0), (0, 1)])
        def g(x):
            out = np.empty(len(x), dtype=object if env.symbolic else float)
            for i in range(len(x)): out[i] = q(*[x[i, j] for j in range(dim)])
            return out
        F.set_data(f=g); c = env.choice('leaf', S.leaves); p = S.interior_point('p', c)
        env.prove('samples', F.n_samples() == 1); env.eq('function set later', F.eval(rows([p])), np.array([[q(*p)]], dtype=object)); return
    elif how == 'all': F.modify_data(E[:, 0].copy(), i_sample=1, dofs=S.dofs); W = D.copy(); W[:, 1] = E[:, 0]
    elif how == 'default': F.modify_data(E.copy(), i_sample=1); W = D.copy(); W[:, 1] = E[:, 0]
    elif how == 'some':
        ii = idx[::-2]; F.modify_data(E[ii], i_sample=0, dofs=[S.dofs[i] for i in ii]); W = D.copy(); W[ii, 0] = E[ii, 0]
    else: F.modify_data(E[idx[-1:], 0], i_sample=1, dofs=[S.dofs[-1]]); W = D.copy(); W[-1, 1] = E[-1, 0]
    env.eq('data', F.data(), W)
    c = env.choice('leaf', S.leaves); p = S.interior_point('p', c)
    env.prove('samples', F.n_samples() == W.shape[1])
    env.eq('value', F.eval(rows([p])), np.array([[S.at(c, W, p, (0,), s) for s in range(W.shape[1])]], dtype=object))

@balanced_only
def h_two(env, dim=1, nx=2, ny=None, k=0, el='Q1', ns=1, sub=False, mode='data'):
    """functions of two variables: sum_ij D_ij phi_i(x) phi_j(y)"""
    S = Setup(env, dim, nx, ny, (), k, (), el, sub); fn = M('function'); n = len(S.dofs)
    if mode == 'data':
        D = np.empty((n, n, ns), dtype=object if env.symbolic else float)
        for i in np.ndindex(D.shape): D[i] = env.real('d%d_%d_%d' % i)
        F = fn.Nodal(data=D, basis=S.basis, n_variables=2)
    else:
        kk = S.e.polynomial_degree()
        q = spoly(env, 'q', [(i, j) for i in range(kk + 1) for j in range(kk + 1)])
        def f(x, y):
            out = np.empty(len(x), dtype=object if env.symbolic else float)
            for i in range(len(x)): out[i] = q(x[i, 0], y[i, dim - 1])
            return out
        F = fn.Nodal(f=f, basis=S.basis, n_variables=2)
    c1, c2 = env.choice('c1', S.leaves), env.choice('c2', S.leaves)
    p, r = S.interior_point('p', c1), S.interior_point('r', c2)
    X = (rows([p]), rows([r]))
    if mode != 'data':
        env.eq('reproduces f(x,y)', F.eval(X), np.array([[q(p[0], r[dim - 1])]], dtype=object)); return
    DD = [((0,), (0,)), ((1, 0), (0,)), ((0,), (1, dim - 1)), ((1, 0), (1, 0))] if el != 'DQ0' else [((0,), (0,))]
    for d1, d2 in DD:
        inner = np.empty((n, ns), dtype=object)
        for i in range(n):
            for s in range(ns): inner[i, s] = S.loc.val(S.pat.box(c2), [D[i, S.dofs.index(g), s] for g in S.gd[c2]], r, d2)
        want = np.array([[S.at(c1, inner, p, d1, s) for s in range(ns)]], dtype=object)
        env.eq('two variables %s' % ((d1, d2),), F.eval(X, derivative=[d1, d2]), want)
    env.eq('cells given', F.eval(X, cell=(node(S.mesh, c1), node(S.mesh, c2)), derivative=[d1, d2]), want)

def local_jet(S, c, st, ders_):
    """values of the local functions of a general cell and of their derivatives (base coordinates) at the reference point: exact"""
    m = CellMap(S.pat.corners(c)); at = lambda f: sum((v * st[0] ** i * st[1] ** j for (i, j), v in f.items()), Fr(0)); det = at(m.det); out = {}
    l1 = [lag1(S.loc.g, i, 0) for i in range(len(S.loc.g))]
    for der in ders_:
        vals = []
        for i, j in S.loc.idx:
            f, p = qtensor(l1[i], l1[j]), 0
            for v in der[1:]:
                g = m.grad(f, v)
                if p: f, p = qadd(qmul(g, m.det), qmul(f, m.grad(m.det, v)), -p), p + 2
                else: f, p = g, 1
            vals.append(at(f) / det ** p)
        out[der] = vals
    return out

POINTS = [(Fr(1, 3), Fr(1, 4)), (Fr(7, 8), Fr(1, 16)), (Fr(1, 50), Fr(29, 30)), (Fr(1, 2), Fr(1, 2)), (Fr(3, 5), Fr(9, 10))]

@balanced_only
def h_gen(env, layout='pair', rot='any', shear=0, k=0, first=(), el='Q1', sub=False, ns=1, pts=(0, 1), poly=False, unit=False):
    """general quadrilaterals: value and derivatives of the function, anywhere, with the cell given or not, or built from a polynomial"""
    fn = M('function')
    S = Setup(env, 2, 0, 0, (), k, first, el, sub, unit=unit, geo=dict(layout=layout, rot=rot, shear=shear)); e = S.e
    num = (lambda f: f) if env.symbolic else float
    c = env.choice('leaf', S.leaves); cell = node(S.mesh, c)
    P = [bilin(S.pat.corners(c), *POINTS[i]) for i in pts]; X = rows([S.X(p) for p in P])
    w, h = S.pat.scale; D_ = ders(2) if el != 'DQ0' else [(0,)]
    if poly:
        kk = max(e.polynomial_degree(), 0); q = spoly(env, 'q', [(i, j) for i in range(kk + 1) for j in range(kk + 1 - i)])
        for co in q.c: env.assume(And(co <= 8, co >= -8))
        Q = lambda x, y: q(x, y)
        F = fn.Nodal(f=lambda x: np.array([[Q((y[0] - S.X((0, 0))[0]) / w, (y[1] - S.X((0, 0))[1]) / h)] for y in x], dtype=object if env.symbolic else float), basis=S.basis, dim=2)
        for der in D_:
            g = q
            for a in der[1:]: g = g.d(a)
            f = 1
            for a in der[1:]: f = f * (w, h)[a]
            v = F.eval(X, derivative=der)
            env.close('reproduces %s' % (der,), [z * f for z in np.ravel(v)], [g(*map(num, p)) for p in P], 1e-4)
            if len(der) > 1:
                v = F.differentiate(der).eval(X)
                env.close('derivative function %s' % (der,), [z * f for z in np.ravel(v)], [g(*map(num, p)) for p in P], 1e-4)
        return
    D = S.data(ns); F = fn.Nodal(data=D, basis=S.basis)
    for z in D.ravel(): env.assume(And(z <= 8, z >= -8))
    jets = [local_jet(S, c, POINTS[i], D_) for i in pts]
    for der in D_:
        f = 1
        for a in der[1:]: f = f * (w, h)[a]
        want = np.array([[sum(D[S.dofs.index(g), s] * num(v) for g, v in zip(S.gd[c], J[der])) for s in range(ns)] for J in jets], dtype=object)
        for how, kw in (('anywhere', {}), ('cell given', dict(cell=cell))):
            v = F.eval(X, derivative=der, **kw)
            env.prove('shape', np.shape(v) == want.shape, np.shape(v))
            env.close('%s %s' % (how, der), np.array([[z * f for z in r] for r in v], dtype=object), want, 1e-4, (c,))

def tasks(tier):
    th = tier != 'quick'; T = []
    for el in ('DQ0', 'Q1', 'Q2', 'Q3', 'DQ1', 'DQ2'):
        T.append(('h_point', dict(dim=1, nx=2, k=1, el=el)))
        T.append(('h_point', dict(dim=1, nx=2, per=(0,), k=1, el=el, sub=True)))
        T.append(('h_point', dict(dim=1, nx=2, k=2, el=el, derivs=True, inside=True, np_=2)))
        T.append(('h_point', dict(dim=1, nx=2, k=1, el=el, np_=2, sub=True)))
        T.append(('h_point', dict(dim=2, nx=1, ny=1, k=1, el=el, derivs=True, inside=True, sub=True)))
        T.append(('h_point', dict(dim=2, nx=2, ny=1, k=1, el=el, maxd=1)))
        T.append(('h_cell', dict(dim=1, nx=2, k=1, el=el, sub=True)))
        T.append(('h_cell', dict(dim=2, nx=2, ny=1, k=1, el=el, np_=1)))
        T.append(('h_cell', dict(dim=2, nx=1, ny=1, k=1, el=el, sub=True, np_=2)))
        for sub in (False, True):
            T.append(('h_poly', dict(dim=1, nx=2, k=1, el=el, sub=sub)))
            T.append(('h_poly', dict(dim=2, nx=2, ny=1, k=1, el=el, sub=sub, unit=el[-1] > '1')))
            T.append(('h_change', dict(dim=1, nx=2, el=el, sub=sub)))
            T.append(('h_diff', dict(dim=1, nx=2, k=1, el=el, sub=sub)))
            T.append(('h_diff', dict(dim=2, nx=2, ny=1, k=1, el=el, sub=sub, ns=1)))
        T.append(('h_change', dict(dim=2, nx=1, ny=1, el=el, sub=True)))
        T.append(('h_two', dict(dim=1, nx=2, el=el, ns=2)))
        T.append(('h_two', dict(dim=1, nx=2, el=el, mode='f')))
        if el in ('Q1', 'DQ0', 'DQ1', 'Q2'):
            T.append(('h_two', dict(dim=1, nx=1, k=1, el=el, sub=True)))
            T.append(('h_two', dict(dim=2, nx=2, ny=1, el=el, mode='f')))
        if el in ('Q1', 'DQ0'): T.append(('h_two', dict(dim=2, nx=2, ny=1, el=el)))
        if el in ('DQ0', 'Q1', 'Q2', 'DQ1'):
            T.append(('h_point', dict(dim=2, nx=2, ny=1, per=(0,), k=1, el=el, inside=True)))
            T.append(('h_point', dict(dim=2, nx=2, ny=2, k=2, el=el, inside=True)))
        for lay, rot in (('pair', 'any'), ('three', (1, 3, 2)), ('one', None), ('five', (0, 1, 2, 3, 1)), ('ring', (3, 0, 2, 1))):
            few = lay in ('five', 'ring')
            if few and el not in ('Q1', 'DQ1', 'DQ0') and not th: continue
            T.append(('h_gen', dict(layout=lay, rot=rot, el=el, shear=.5 if lay == 'one' else 0, first=((0,),) if few else (), k=0, pts=(1,) if few else (0, 2), ns=1 if few else 2)))
            if el != 'DQ0' and not few: T.append(('h_gen', dict(layout=lay, rot=rot if rot != 'any' else (2, 3), el=el, k=0, first=((0,),) if lay != 'three' else (), sub=lay == 'pair', pts=(1, 4) if lay == 'one' else (4,), poly=lay != 'pair', unit=lay != 'pair' and el[-1] > '1')))
    for el in ('Q1', 'DQ1', 'Q2'):
        T.append(('h_point', dict(dim=1, nx=3, k=1, el=el, ns=3, np_=3, inside=True)))
        T.append(('h_cell', dict(dim=1, nx=2, k=1, el=el, ns=4, np_=3)))
        T.append(('h_cell', dict(dim=2, nx=2, ny=1, k=1, el=el, ns=3, np_=3)))
        T.append(('h_diff', dict(dim=2, nx=2, ny=1, k=0, el=el, ns=3)))
        T.append(('h_poly', dict(dim=2, nx=2, ny=2, k=0, first=((1,), (2,)) + (((1, 0),) if el != 'Q2' else ()), el=el, unit=el == 'Q2')))
    T.append(('h_two', dict(dim=1, nx=1, el='Q1', ns=3)))
    T.append(('h_point', dict(dim=2, nx=2, ny=2, k=0, first=((0,), (0, 3), (3,)), maxd=3, el='Q1', inside=True, sub=True)))
    return T
