"""Oracle side of the assembly checks: exact integrals of piecewise polynomials, in the coordinates of the refinement pattern."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, spoly, poly_deg, any_sym, And, Or, Not
from .meshu import Pat, node, grow, qmesh, imesh
from .genu import GPat, gmesh, CellMap, qmul, qadd, qsub, qtensor, rel_coords, on_side
from .M04 import mark_sub
from .F02 import fe
from .N01 import lag1, Unbalanced, balanced_only

# ---- univariate polynomials over the fractions: coefficient lists
def pmul(a, b):
    r = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b): r[i + j] += x * y
    return r
def pder(a, n=1):
    for _ in range(n): a = [k * a[k] for k in range(1, len(a))] or [Fr(0)]
    return a
def pshift(a, lo, ln):
    """a((p - lo)/ln) as a polynomial in p"""
    r = [Fr(0)]; pw = [Fr(1)]; lin = [Fr(-lo) / ln, Fr(1) / ln]
    for c in a:
        r = [(r[i] if i < len(r) else Fr(0)) + (c * pw[i] if i < len(pw) else Fr(0)) for i in range(max(len(r), len(pw)))]
        pw = pmul(pw, lin)
    return r
def pmom(a, lo, hi, m):
    """integral of a(p) p^m over [lo,hi]"""
    return sum((c * (hi ** (k + m + 1) - lo ** (k + m + 1)) / (k + m + 1) for k, c in enumerate(a)), Fr(0))
def peval(a, t): return sum((c * t ** k for k, c in enumerate(a)), Fr(0))

def num(env, f): return f if env.symbolic else float(f)

class LP(object):
    """polynomial in the pattern coordinates, coefficients symbolic"""
    def __init__(self, t): self.t = t
    def __mul__(self, o):
        r = {}
        for e, c in self.t.items():
            for f, d in o.t.items():
                g = tuple(a + b for a, b in zip(e, f)); v = c * d
                r[g] = r[g] + v if g in r else v
        return LP(r)
    def __add__(self, o):
        r = dict(self.t)
        for e, c in o.t.items(): r[e] = r[e] + c if e in r else c
        return LP(r)
    def scale(self, s): return LP({e: c * s for e, c in self.t.items()})

class Dom(object):
    def __init__(self, env, dim=1, nx=2, ny=None, per=(), k=0, first=(), unit=False, maxd=2, subs=(), name='s', layout=None, rot=None, shear=0, similar=False):
        self.env = env; self.dim = dim; self.maps = {}
        if layout: mesh, pat, X = gmesh(env, layout, rot, unit, shear, similar=similar)
        else: mesh, pat, X = qmesh(env, nx, ny, per, unit) if dim == 2 else imesh(env, nx, bool(per), unit)
        for c in first: node(mesh, c).split(); pat.split(c)
        if k: grow(env, pat, mesh, k, maxd, name=name)
        if dim == 2 and not mesh.is_balanced(): raise Unbalanced()
        self.mesh, self.pat, self.X = mesh, pat, X
        O = X(tuple([0] * dim)); I = X(tuple([1] * dim))
        self.o = O; self.u = [i - o for i, o in zip(I, O)]       # origin and unit of the pattern coordinates
        self.mk = {None: {c: True for c in pat.cells}}
        for s in subs: self.mk[s] = mark_sub(env, mesh, pat, s)
    def cells(self, flag=None): return [c for c in self.pat.cells if bool(self.mk[flag][c])]
    def leaves(self, flag=None):
        return [c for c in self.cells(flag) if c not in self.pat.split_set or not bool(self.mk[flag][c + (0,)])]
    def anc(self, c, flag):
        """the cell of the (rooted) sub-mesh that contains c"""
        while not bool(self.mk[flag][c]): c = c[:-1]
        return c
    def contained(self, fine, coarse):
        """is the sub-mesh `coarse` contained in `fine`: all its leaves are covered by leaves of the fine one"""
        return all(bool(self.mk[fine][c]) for c in self.leaves(coarse))
    def cmap(self, c):
        if c not in self.maps: self.maps[c] = CellMap(self.pat.corners(c))
        return self.maps[c]
    def vol(self):
        v = 1
        for x in self.u: v = v * x
        return v
    def lp(self, q):
        """polynomial q(x) (Poly2) in pattern coordinates"""
        r = LP({})
        one = tuple([0] * self.dim)
        for e, c in zip(q.e, q.c):
            t = LP({one: c})
            for k, n in enumerate(e):
                ek = tuple(1 if i == k else 0 for i in range(self.dim))
                for _ in range(n): t = t * LP({one: self.o[k], ek: self.u[k]})
            r = r + t
        return r
    def const(self, c): return LP({tuple([0] * self.dim): c})

STR = {(0,): 'u', (1, 0): 'ux', (1, 1): 'uy', (2, 0, 0): 'uxx', (2, 0, 1): 'uxy', (2, 1, 0): 'uyx', (2, 1, 1): 'uyy'}

class Fe(object):
    """element space on a domain"""
    def __init__(self, D, el, flag=None):
        self.D = D; self.el = el; self.flag = flag; env = D.env
        m = M('fem'); self.e = fe(D.dim, el)
        self.dh = m.DofHandler(D.mesh, self.e); self.dh.distribute_dofs(); self.dh.set_dof_vertices()
        ref = np.array(self.e.reference_nodes(), dtype=float).reshape(self.e.n_dofs(), -1)
        k = self.e.polynomial_degree(); self.g = [Fr(i, k) for i in range(k + 1)] if k else [Fr(1, 2)]
        self.idx = [tuple(self.g.index(Fr(float(x)).limit_denominator(12)) for x in r) for r in ref]
        self.l1 = [lag1(self.g, i, 0) for i in range(len(self.g))]
        self.b = {}; self.memo = {}
    def basis(self, der=(0,), flag='same'):
        flag = self.flag if flag == 'same' else flag
        k = (der, flag)
        if k not in self.b: self.b[k] = M('fem').Basis(self.dh, derivative=STR.get(der, der) if self.el in ('Q1', 'DQ1', 'Q3') else der, subforest_flag=flag)
        return self.b[k]
    def dofs(self): return [int(d) for d in self.basis().dofs()]
    def order(self):
        """dofs in the order of the assembled rows and columns"""
        b = self.basis(); d = self.dofs()
        o = [None] * len(d)
        for g in d: o[int(b.d2i(g))] = g
        return o
    def gd(self, c): return [int(g) for g in self.dh.get_cell_dofs(node(self.D.mesh, c))]
    def fun(self, c, j, der=(0,)):
        """axis polynomials (pattern coordinates) of the derivative of local function j on cell c"""
        k = (c, j, der)
        if k not in self.memo:
            vs = list(der[1:])
            self.memo[k] = [pder(pshift(self.l1[i], lo, hi - lo), vs.count(a)) for a, (i, (lo, hi)) in enumerate(zip(self.idx[j], self.D.pat.box(c)))]
        return self.memo[k]
    def qfun(self, c, j, der=(0,)):
        """local function j of a general cell (or the numerator of its derivative) in reference coordinates"""
        k = (c, j, der, 'q')
        if k not in self.memo:
            i0, i1 = self.idx[j]; f = qtensor(self.l1[i0], self.l1[i1]); m = self.D.cmap(c)
            if len(der) > 2 and not m.flat: raise ValueError('not a polynomial')
            for v in der[1:]: f = m.grad(f, v)
            self.memo[k] = f
        return self.memo[k]
    def hfac(self, der):
        """factor of a derivative when passing from pattern to physical coordinates"""
        f = 1
        for v in der[1:]: f = f * self.D.u[v]
        return f
    def nodal_lp(self, c, vals, der=(0,)):
        """local polynomial with the given nodal values (aligned with gd(c))"""
        env = self.D.env; r = LP({})
        f = self.hfac(der)
        if isinstance(self.D.pat, GPat):
            t = {}
            for j, v in enumerate(vals): t = qadd(t, {e: v * num(env, co) for e, co in self.qfun(c, j, der).items()})
            r = LP({e: q / f for e, q in t.items()} if der[1:] else t); r.cell = c; r.pow = len(der) - 1
            return r
        for j, v in enumerate(vals):
            ax = self.fun(c, j, der); t = {(): v}
            for a in ax: t = {e + (m,): q * num(env, co) for e, q in t.items() for m, co in enumerate(a) if co}
            r = r + LP(t)
        return r if not der[1:] else LP({e: q / f for e, q in r.t.items()})

def integral(D, K, axs, box, der_fac, skip=None):
    """integral over the box (pattern units) of K times the product of axis polynomials; skip = axis with a fixed value lo==hi"""
    env = D.env; r = 0
    for e, c in K.t.items():
        f = Fr(1)
        for a, (lo, hi) in enumerate(box):
            f *= pmom(axs[a], lo, hi, e[a]) if a != skip else peval(axs[a], lo) * lo ** e[a]
            if not f: break
        if f: r = r + c * num(env, f)
    return r / der_fac if not (isinstance(der_fac, int) and der_fac == 1) else r

def ones(dim): return [[Fr(1)] for _ in range(dim)]

def local(D, K, c, box, test=None, trial=None, skip=None, scale=None):
    """local integrals over a box inside cell c: K as LP, test/trial = (Fe, der); rows test, cols trial (lists), with the dofs"""
    if isinstance(D.pat, GPat): return glocal(D, K, c, box, test, trial)
    vol = D.vol() if scale is None else scale
    def side(t):
        if t is None: return [(None, ones(D.dim))], 1
        F, der = t; a = D.anc(c, F.flag)
        return [(g, F.fun(a, j, der)) for j, g in enumerate(F.gd(a))], F.hfac(der)
    T, ft = side(test); U, fu = side(trial)
    out = []
    fac = ft * fu
    for g, A in T:
        for h, B in U:
            out.append((g, h, integral(D, K, [pmul(x, y) for x, y in zip(A, B)], box, fac, skip) * vol))
    return out

def glocal(D, K, c, side=None, test=None, trial=None, at=None):
    """the same on a general cell: over the cell (side None) or one of its sides, or at a corner"""
    env = D.env; m = D.cmap(c)
    def own(f, a): return f if a == c else qsub(f, *rel_coords(c, a))
    def part(t):
        if t is None: return [(None, {(0, 0): Fr(1)})], 0, 1
        F, der = t; a = D.anc(c, F.flag)
        if len(der) > 1 and a != c and not D.cmap(a).flat: raise ValueError('not covered')
        out = []
        for j, g in enumerate(F.gd(a)):
            f = own(F.qfun(a, j, der), a)
            if len(der) > 1 and a != c: f = {e: v / D.cmap(a).det[0, 0] ** (len(der) - 1) * m.det[0, 0] ** (len(der) - 1) for e, v in f.items()}
            out.append((g, f))
        return out, len(der) - 1, F.hfac(der)
    T, nt, ft = part(test); U, nu, fu = part(trial); n = nt + nu
    if hasattr(K, 'cell'):
        k = own(K.t, K.cell)
        if K.pow and K.cell != c: raise ValueError('not covered')
        n += K.pow
    else: k = qsub(K.t, *m.x)
    fac = ft * fu; out = []
    sides = isinstance(side, int)
    if sides:
        S, R = [[{(1, 0): Fr(1)}, {}], [{(0, 0): Fr(1)}, {(1, 0): Fr(1)}], [{(0, 0): Fr(1), (1, 0): Fr(-1)}, {(0, 0): Fr(1)}], [{}, {(0, 0): Fr(1), (1, 0): Fr(-1)}]][side]
        p, q = D.pat.seg(c, side); l2 = sum((x - y) ** 2 for x, y in zip(p, q)); ln = Fr(int(round(float(l2 * 144) ** .5)), 12)
        if ln * ln != l2: raise ValueError('irrational length')
        size = D.u[0] * num(env, ln)
    elif at is not None: size = 1
    else: size = D.vol()
    for g, A in T:
        for h, B in U:
            w = qmul(A, B)
            if at is None and not sides and n == 0: w = qmul(w, m.det)
            elif at is None and not sides: w = m.divide(w, n - 1)
            else: w = m.divide(w, n)
            if sides: w = qsub(w, S, R)
            v = 0
            kk = qsub(k, S, R) if sides else k
            if at is None: v = sum((x * num(env, sum(y / ((i + a + 1) * (j + b + 1)) for (a, b), y in w.items())) for (i, j), x in kk.items() if w), 0)
            else: v = sum((x * num(env, sum(y * at[0] ** (i + a) * at[1] ** (j + b) for (a, b), y in w.items())) for (i, j), x in kk.items() if w), 0)
            out.append((g, h, v / fac * size if n else v * size))
    return out

def dense(A): return np.asarray(A.toarray()) if hasattr(A, 'toarray') else np.asarray(A)

def compare(env, what, got, rows_, cols_, terms):
    """assembled object against the sum of local terms"""
    if rows_ is None:
        env.eq(what, got, sum((v for _, _, v in terms), 0)); return
    ri = {g: i for i, g in enumerate(rows_)}
    if cols_ is None:
        w = [0] * len(rows_)
        for g, _, v in terms: w[ri[g]] = w[ri[g]] + v
        got = np.asarray(got)
        env.prove(what + ': size', got.shape == (len(rows_),), got.shape)
        if got.shape == (len(rows_),): env.eq(what, got, np.array(w, dtype=object))
        return
    ci = {g: i for i, g in enumerate(cols_)}
    W = np.empty((len(rows_), len(cols_)), dtype=object); W.fill(0)
    for g, h, v in terms: W[ri[g], ci[h]] = W[ri[g], ci[h]] + v
    A = dense(got)
    env.prove(what + ': size', A.shape == W.shape, A.shape)
    if A.shape == W.shape: env.eq(what, A, W)
