"""Oracle side for meshes of general quadrilaterals given by point lists: any connectivity, any starting corner, straight sides.
Positions are exact rationals in base coordinates; the mesh itself is an affine image with symbolic coefficients."""
from fractions import Fraction as Fr
from .common import M, rows
from .meshu import node, grow

def P_(*p): return [tuple(Fr(x) for x in q) for q in p]
H = Fr(1, 2)
#: name -> (points, faces); counter-clockwise, convex, conforming
LAYOUTS = {
    'pair': (P_((0, 0), (2, 0), (4, 1), (0, 2), (Fr(5, 2), 2), (4, 4)), [(0, 1, 4, 3), (1, 2, 5, 4)]),                                   # two trapezoids
    'para': (P_((0, 0), (2, 1), (4, 2), (-1, 2), (1, 3), (3, 4)), [(0, 1, 4, 3), (1, 2, 5, 4)]),                                        # two parallelograms
    'three': (P_((0, 0), (4, 0), (2, 3), (-2, 3), (-4, 0), (-2, -3), (2, -3)), [(0, 6, 1, 2), (0, 2, 3, 4), (0, 4, 5, 6)]),             # three cells around a vertex
    'L': (P_((0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2)), [(0, 1, 4, 3), (1, 2, 5, 4), (3, 4, 7, 6)]),              # re-entrant corner
    'five': (P_((0, 0), (4, 0), (4, 4), (1, 4), (-2, 5), (-4, 2), (-4, -1), (-3, -4), (0, -4), (3, -3), (4, -1)),
             [(0, 1, 2, 3), (0, 3, 4, 5), (0, 5, 6, 7), (0, 7, 8, 9), (0, 9, 10, 1)]),                                                  # five cells around a vertex
    'ring': (P_((0, 0), (6, 0), (6, 6), (0, 6), (2, 2), (4, 2), (4, 4), (2, 4)), [(0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]),   # a hole
    'touch': (P_((0, 0), (1, 0), (1, 1), (0, 1), (2, 1), (2, 2), (1, 2)), [(0, 1, 2, 3), (2, 4, 5, 6)]),                                # two cells that share only a corner
    'slant': (P_((0, 0), (4, 0), (10, 0), (3, 4), (7, 4), (10, 4)), [(0, 1, 4, 3), (1, 2, 5, 4)]),                                       # a parallelogram and a trapezoid, sides of length 3-6
    'slant2': (P_((0, 0), (4, 0), (8, 0), (3, 4), (7, 4), (11, 4)), [(0, 1, 4, 3), (1, 2, 5, 4)]),
    'one': (P_((0, 0), (3, 0), (2, 2), (0, 1)), [(0, 1, 2, 3)]),
}

def mid(p, q): return tuple((a + b) / 2 for a, b in zip(p, q))
def bilin(q, s, t):
    return tuple(q[0][i] * (1 - s) * (1 - t) + q[1][i] * s * (1 - t) + q[2][i] * s * t + q[3][i] * (1 - s) * t for i in range(2))
def on_side(k, r):
    """local coordinates of the point at r along side k"""
    return [(r, 0), (1, r), (1 - r, 1), (0, 1 - r)][k]

class GPat(object):
    """refinement pattern of a mesh of general quadrilaterals; interface of meshu.Pat where that makes sense"""
    def __init__(self, pts, faces):
        self.pts, self.faces = pts, faces; self.per = (); self.dim = 2; self.arity = 4
        self.cells = [(i,) for i in range(len(faces))]; self.split_set = set(); self._c = {}
    def fresh(self): q = GPat(self.pts, self.faces); q.scale = self.scale; return q
    def leaves(self): return [c for c in self.cells if c not in self.split_set]
    def split(self, c): self.split_set.add(c); self.cells += [c + (k,) for k in range(4)]
    def depth(self, c): return len(c) - 1
    def corners(self, c):
        if c not in self._c:
            if len(c) == 1: self._c[c] = [self.pts[i] for i in self.faces[c[0]]]
            else:
                q = self.corners(c[:-1]); m = bilin(q, H, H); k = c[-1]
                e = [mid(q[i], q[(i + 1) % 4]) for i in range(4)]
                self._c[c] = [[q[0], e[0], m, e[3]], [e[0], q[1], e[1], m], [m, e[1], q[2], e[2]], [e[3], m, e[2], q[3]]][k]
        return self._c[c]
    def norm(self, p): return tuple(p)
    def shifts(self): return [(0, 0)]
    def box(self, c): return None
    def at(self, c, s, t): return bilin(self.corners(c), s, t)
    def nodes(self, c, ref): return [self.at(c, *[Fr(float(r)).limit_denominator(12) for r in x]) for x in ref]
    def seg(self, c, k): q = self.corners(c); return q[k], q[(k + 1) % 4]
    def across(self, c, k, cells):
        p, q = self.seg(c, k)
        return [d for d in cells if len(d) == len(c) and d != c and any(self.seg(d, j) == (q, p) for j in range(4))]
    def param(self, c, k, x):
        """parameter of point x along side k of c, or None if it is not on its line"""
        p, q = self.seg(c, k); u = (q[0] - p[0], q[1] - p[1]); v = (x[0] - p[0], x[1] - p[1])
        if u[0] * v[1] != u[1] * v[0]: return None
        return (u[0] * v[0] + u[1] * v[1]) / (u[0] * u[0] + u[1] * u[1])
    def contact(self, c, k, d):
        """where leaf d touches side k of c from outside: (side of d, (lo, hi) along k, (lo, hi) along d's side, same direction as c's) or None"""
        if d == c: return None
        for j in range(4):
            p, q = self.seg(d, j); a, b = self.param(c, k, q), self.param(c, k, p)
            if a is None or b is None or a >= b: continue        # opposite orientation
            lo, hi = max(a, Fr(0)), min(b, Fr(1))
            if lo < hi: return j, (lo, hi), (1 - (lo - a) / (b - a), 1 - (hi - a) / (b - a))
        return None
    def side_overlap(self, c, k, d): o = self.contact(c, k, d); return o and o[1]
    def on_bnd(self, c, k):
        """does side k of c lie on the boundary: the root side it is part of belongs to one face only"""
        p, q = self.seg(c, k)
        for i, f in enumerate(self.faces):
            if i == c[0]:
                for j in range(4):
                    if all(self.param((i,), j, x) is not None for x in (p, q)): return not self.across((i,), j, [(n,) for n in range(len(self.faces))])
        return False
    def area0(self):
        t = Fr(0)
        for c in range(len(self.faces)):
            q = self.corners((c,)); t += sum(q[i][0] * q[(i + 1) % 4][1] - q[i][1] * q[(i + 1) % 4][0] for i in range(4)) / 2
        return t

def gmesh(env, layout='pair', rot=None, unit=False, shear=0, order=None, similar=False):
    """QuadMesh from points and connectivity, its pattern and the affine map.  rot: starting corners of the faces ('any' = every choice)"""
    m = M('mesh'); pts, faces = LAYOUTS[layout]
    fs = [tuple(f) for f in faces]; sh = Fr(shear)
    if sh: pts = [(x + sh * y, y) for x, y in pts]
    if order: fs = [fs[i] for i in order]
    if rot == 'any': rot = [env.choice('corner%d' % i, range(4)) if i else 0 for i in range(len(fs))]
    if rot: fs = [f[r:] + f[:r] for f, r in zip(fs, rot)]
    if unit: a, b, w, h = 0., 0., 1., 1.
    else:
        a, b = env.real('a', -64, 64), env.real('b', -64, 64); w = env.pos('w', .1, 64); h = w if similar else env.pos('h', .1, 64)
    num = (lambda f: f) if env.symbolic and not unit else float
    def X(p): return a + w * num(Fr(p[0])), b + h * num(Fr(p[1]))
    mesh = m.QuadMesh(x=rows([X(p) for p in pts]), connectivity=[list(f) for f in fs])
    pat = GPat(pts, fs); pat.scale = (w, h)
    return mesh, pat, X

# ---- polynomials in the reference coordinates of a cell: {(i, j): coefficient}
def qmul(a, b):
    r = {}
    for (i, j), x in a.items():
        for (k, l), y in b.items():
            g = (i + k, j + l); v = x * y; r[g] = r[g] + v if g in r else v
    return r
def qadd(a, b, f=1):
    r = dict(a)
    for e, y in b.items(): r[e] = r[e] + f * y if e in r else f * y
    return {e: v for e, v in r.items() if not (isinstance(v, Fr) and v == 0)}
def qder(a, k):
    r = {}
    for e, x in a.items():
        if e[k]: r[tuple(n - (i == k) for i, n in enumerate(e))] = e[k] * x
    return r
def qsub(a, S, T):
    """a(S, T) for polynomials S, T with rational coefficients"""
    r = {}; ps, pt = [{(0, 0): Fr(1)}], [{(0, 0): Fr(1)}]
    for (i, j), x in a.items():
        while len(ps) <= i: ps.append(qmul(ps[-1], S))
        while len(pt) <= j: pt.append(qmul(pt[-1], T))
        r = qadd(r, {e: x * v for e, v in qmul(ps[i], pt[j]).items()})
    return r
def qtensor(p, q): return {(i, j): x * y for i, x in enumerate(p) for j, y in enumerate(q) if x * y}

class CellMap(object):
    """bilinear map of the unit square to a cell, base coordinates"""
    def __init__(self, q):
        self.x = []
        for i in range(2):
            a, b, c, d = (p[i] for p in q)
            self.x.append({e: v for e, v in {(0, 0): a, (1, 0): b - a, (0, 1): d - a, (1, 1): a - b + c - d}.items() if v})
        X, Y = self.x
        self.J = [[qder(f, k) for k in range(2)] for f in self.x]
        self.det = qadd(qmul(self.J[0][0], self.J[1][1]), qmul(self.J[0][1], self.J[1][0]), -1)
        self.flat = set(self.det) <= {(0, 0)}
    def grad(self, f, k):
        """numerator of the derivative along base coordinate k (to be divided by det)"""
        o = 1 - k; g = qadd(qmul(qder(f, 0), self.J[o][1]), qmul(qder(f, 1), self.J[o][0]), -1)
        return g if k == 0 else {e: -v for e, v in g.items()}
    def divide(self, f, n=1):
        if not n: return f
        if not self.flat: raise ValueError('not a polynomial')
        d = self.det[0, 0] ** n; return {e: v / d for e, v in f.items()}

def rel_coords(c, a):
    """reference coordinates in the ancestor a, as polynomials of those in c"""
    S, T = {(1, 0): Fr(1)}, {(0, 1): Fr(1)}
    for k in reversed(c[len(a):]):
        i, j = [(0, 0), (1, 0), (1, 1), (0, 1)][k]
        S, T = [{e: v for e, v in qadd({e: v / 2 for e, v in P.items()}, {(0, 0): Fr(o, 2)}).items() if v} for P, o in ((S, i), (T, j))]
    return S, T
