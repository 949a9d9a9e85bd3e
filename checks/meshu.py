"""Oracle side of the mesh checks: refinement patterns as sets of addresses, with their geometry in units of root cells."""
from fractions import Fraction as Fr
from .common import M

QC = [(0, 0), (1, 0), (1, 1), (0, 1)]          # quadrilateral children, counter-clockwise from the south-west one

_boxes = {}
class Pat(object):
    """refinement pattern of an nx (x ny) grid; cells are tuples (root, c1, c2, ...)"""
    def __init__(self, nx, ny=None, per=(), arity=2):
        self.arity = arity
        self.nx, self.ny = nx, ny; self.per = tuple(per); self.dim = 1 if ny is None else 2
        n = nx * (ny or 1)
        self.cells = [(i,) for i in range(n)]; self.split_set = set()
    def copy(self):
        p = Pat(self.nx, self.ny, self.per, self.arity); p.cells = list(self.cells); p.split_set = set(self.split_set); return p
    def fresh(self): return Pat(self.nx, self.ny, self.per, self.arity)
    def leaves(self): return [c for c in self.cells if c not in self.split_set]
    def split(self, c):
        assert c not in self.split_set
        self.split_set.add(c)
        self.cells += [c + (k,) for k in range(self.arity if self.dim == 1 else 4)]
    def box(self, c):
        """((x0,x1),(y0,y1)) or ((x0,x1),)"""
        r = _boxes.get((self.nx, self.dim, self.arity, c))
        if r is None: r = _boxes[(self.nx, self.dim, self.arity, c)] = self._box(c)
        return r
    def _box(self, c):
        x = Fr(c[0] % self.nx); y = Fr(c[0] // self.nx); s = Fr(1)
        for k in c[1:]:
            s = s / (self.arity if self.dim == 1 else 2)
            if self.dim == 1: x += k * s
            else: x += QC[k][0] * s; y += QC[k][1] * s
        return ((x, x + s),) if self.dim == 1 else ((x, x + s), (y, y + s))
    def corners(self, c):
        b = self.box(c)
        if self.dim == 1: return [(b[0][0],), (b[0][1],)]
        (x0, x1), (y0, y1) = b
        return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    def norm(self, p):
        """identify periodic images"""
        q = list(p)
        for k in self.per:
            n = (self.nx, self.ny)[k]
            if q[k] == n: q[k] = Fr(0)
        return tuple(q)
    def shifts(self):
        out = [tuple([0] * self.dim)]
        for k in self.per:
            n = (self.nx, self.ny)[k]
            out = [tuple(s[j] + (d * n if j == k else 0) for j in range(self.dim)) for s in out for d in (0, 1, -1)]
        return out
    def depth(self, c): return len(c) - 1
    def side(self, c, k):
        """side k of a quadrilateral (0 bottom, 1 right, 2 top, 3 left) as (axis of the side, line, lo, hi)"""
        (x0, x1), (y0, y1) = self.box(c)
        return [(0, y0, x0, x1), (1, x1, y0, y1), (0, y1, x0, x1), (1, x0, y0, y1)][k]
    def images(self, s):
        """periodic images of a side"""
        out = {s}
        per_axis = 1 - s[0]                     # a side along axis a moves across the periodic direction 1-a
        if per_axis in self.per:
            n = (self.nx, self.ny)[per_axis]
            if s[1] == 0: out.add((s[0], Fr(n)) + s[2:])
            elif s[1] == n: out.add((s[0], Fr(0)) + s[2:])
        return out
    def side_overlap(self, c, k, d):
        """does leaf d touch side k of c along a segment (from outside)?  (lo,hi) or None"""
        for s in self.images(self.side(c, k)):
            t = self.side(d, (k + 2) % 4)
            if t[:2] == s[:2]:
                lo, hi = max(s[2], t[2]), min(s[3], t[3])
                if lo < hi: return lo, hi
        return None

def node(mesh_or_cells, c):
    cells = getattr(mesh_or_cells, 'cells', mesh_or_cells)
    n = cells.get_child(c[0])
    for k in c[1:]: n = n.get_child(k)
    return n

def merge(mesh, pat, c):
    """remove everything below a cell, from both pattern and mesh"""
    node(mesh, c).mark('merge'); getattr(mesh, 'cells', mesh).coarsen(coarsening_flag='merge')
    n = len(c); pat.merged = True
    pat.cells = [d for d in pat.cells if len(d) <= n or d[:n] != c]
    pat.split_set = {d for d in pat.split_set if d[:n] != c}

def grow(env, pat, mesh, k, maxd=2, among=None, name='s', coarse=False):
    """apply a symbolic history of at most k splits (choices over all current leaves) to both pattern and mesh;
    coarse: a step may also remove everything below a split cell"""
    for i in range(k):
        opts = [None] + [c for c in pat.leaves() if pat.depth(c) < maxd and (among is None or among(c))]
        if coarse: opts += [('x',) + c for c in sorted(pat.split_set) if among is None or among(c)]
        c = env.choice('%s%d' % (name, i), opts)
        if c is None: break
        if c[0] == 'x': merge(mesh, pat, c[1:])
        else: node(mesh, c).split(); pat.split(c)
    return pat

def build(env, pat, mesh):
    """refine mesh to the given pattern"""
    for c in sorted(pat.split_set, key=len): node(mesh, c).split()

def sbox(env, per=False, dim=2):
    a = env.real('a', -64, 64); w = env.pos('w', .1, 64)
    if dim == 1: return a, w
    b = env.real('b', -64, 64); h = env.pos('h', .1, 64)
    return a, w, b, h

def qmesh(env, nx, ny, per=(), unit=False):
    """QuadMesh on a symbolic box, its pattern, and the map from pattern units to coordinates"""
    m = M('mesh')
    if unit: a, w, b, h = 0., float(nx), 0., float(ny)
    else: a, w, b, h = sbox(env, per)
    mesh = m.QuadMesh(box=[a, a + w, b, b + h], resolution=(nx, ny), periodic=set(per) if per else None)
    pat = Pat(nx, ny, per)
    def X(p): return (a + w * p[0] / nx, b + h * p[1] / ny)
    return mesh, pat, X

def imesh(env, n, per=False, unit=False):
    m = M('mesh')
    a, w = (0., float(n)) if unit else sbox(env, per, 1)
    mesh = m.Mesh1D(box=[a, a + w], resolution=(n,), periodic=per)
    pat = Pat(n, None, (0,) if per else ())
    def X(p): return (a + w * p[0] / n,)
    return mesh, pat, X

def iforest(env, n, per=False, arity=3):
    """a row of linked intervals that split into `arity` parts, in a forest"""
    m = M('mesh'); a, w = sbox(env, per, 1)
    v = [m.Vertex(a + w * i / n) for i in range(n + 1)]
    its = [m.Interval(v[i], v[i + 1], n_children=arity) for i in range(n)]
    for i in range(1, n): its[i].assign_previous(its[i - 1])
    if per:
        its[0].set_periodic(); its[-1].set_periodic(); v[0].set_periodic(); v[-1].set_periodic()
        v[-1].set_periodic_pair((its[0], v[0])); v[0].set_periodic_pair((its[-1], v[-1]))
    return m.Forest(its), Pat(n, None, (0,) if per else (), arity), lambda p: (a + w * p[0] / n,)

def f_(x):
    """fractions used as plain floats"""
    return float(x)
