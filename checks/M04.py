"""M04: point location and containment."""
import numpy as np
from .common import M, rows, col, any_sym, And, Or, Not, Iff, Imp
from .meshu import Pat, node, build, qmesh, imesh, QC
from .M02 import corners
MODS = ['mesh']
BOUNDS = ('containment: intervals, edges, rectangles, parallelograms and convex quadrilaterals with symbolic corners, 1-2 symbolic points; binning: '
          'refined meshes (up to 3 cells x depth 2, 10 leaves) on a symbolic box with every marking of nested sub-meshes, 1-2 symbolic points, points '
          'in and outside the domain; two-segment intersection with symbolic end points')
OUTSIDE = 'float rounding at cell borders (points are exact reals); points within 1e-7 outside the border may be taken for inside (code tolerance 1e-10 on cross products); triangles'
T_ = 1e-7

def pts_(env, n, lo=None, hi=None, dim=2, name='p'):
    return [tuple(env.real('%s%d%s' % (name, i, 'xy'[k]), lo, hi) for k in range(dim)) for i in range(n)]

def h_interval(env, n=2):
    m = M('mesh')
    a = env.real('a'); w = env.pos('w')
    itv = m.Interval(m.Vertex(a), m.Vertex(a + w))
    p = pts_(env, n, dim=1)
    r = itv.contains_points(col([q[0] for q in p]))
    env.prove('length', len(r) == n)
    for i in range(n): env.prove('contains', Iff(bool(r[i]), And(p[i][0] >= a, p[i][0] <= a + w)))
    # corners and points given as vertices
    r = itv.contains_points([m.Vertex(q[0]) for q in p] + [itv.base(), itv.head()])
    for i in range(n): env.prove('contains vertex', Iff(bool(r[i]), And(p[i][0] >= a, p[i][0] <= a + w)))
    env.prove('ends', bool(r[n]) and bool(r[n + 1]))

def h_edge(env, kind='general', n=2):
    """point base + t v + s v_perp on the edge iff s = 0 and 0 <= t <= 1"""
    m = M('mesh')
    a, b = env.real('a', -8, 8), env.real('b', -8, 8)
    dx, dy = env.real('dx', -8, 8), env.real('dy', -8, 8)
    if kind == 'h': env.assume(Or(dx > .01, dx < -.01)); dy = 0 * dy
    elif kind == 'v': env.assume(Or(dy > .01, dy < -.01)); dx = 0 * dx
    else: env.assume(Or(dx > .01, dx < -.01)); env.assume(Or(dy > .01, dy < -.01))
    he = m.HalfEdge(m.Vertex((a, b)), m.Vertex((a + dx, b + dy)))
    P, on = [], []
    for i in range(n):
        t = env.real('t%d' % i, -4, 4)
        if env.bit('off%d' % i):
            s = env.real('s%d' % i, -4, 4); env.assume(Or(s > .01, s < -.01)); on.append(False)
        else: s = 0; on.append(And(t >= 0, t <= 1))
        P.append((a + t * dx - s * dy, b + t * dy + s * dx))
    r = he.contains_points(rows(P))
    env.prove('length', len(r) == n)
    for i in range(n): env.prove('on edge', Iff(bool(r[i]), on[i]), i)
    r = he.contains_points([he.base(), he.head()])
    env.prove('ends', bool(r[0]) and bool(r[1]))

def h_cell(env, kind='rect', start=0, n=1, tri=False):
    m = M('mesh')
    c = corners(env, kind, start, 1 if kind == 'para' else 0)
    if tri: c = c[:3]
    k = len(c)
    vs = [m.Vertex(p) for p in c]
    hes = [m.HalfEdge(vs[i], vs[(i + 1) % k]) for i in range(k)]
    cell = m.QuadCell(hes) if k == 4 else m.Cell(hes)
    p = pts_(env, n)
    r = cell.contains_points(rows(p))
    env.prove('length', len(r) == n)
    for i in range(n):
        L = []
        for j in range(k):
            (x0, y0), (x1, y1) = c[j], c[(j + 1) % k]
            L.append((p[i][1] - y0) * (x1 - x0) - (p[i][0] - x0) * (y1 - y0))
        env.prove('inside found', Imp(And(*[l >= 0 for l in L]), bool(r[i])))
        env.prove('outside rejected', Imp(Or(*[l < -T_ for l in L]), not bool(r[i])))
    # convex combinations of the corners are inside; the corners themselves too
    lam = [env.real('l%d' % j, 0, 1) for j in range(k - 1)]
    last = 1 - sum(lam); env.assume(last >= 0)
    q = tuple(sum(lam[j] * c[j][d] for j in range(k - 1)) + last * c[k - 1][d] for d in (0, 1))
    if kind == 'rect': env.prove('convex combination', bool(cell.contains_points(rows([q]))[0]))
    env.prove('corners', all(bool(x) for x in cell.contains_points(vs)))
    if kind == 'rect' and not tri:
        x0, x1, y0, y1 = cell.bounding_box(); o = c[(4 - start) % 4]; e = c[(6 - start) % 4]
        env.eq('bounding box', [x0, x1, y0, y1], [o[0], e[0], o[1], e[1]])

def h_seg(env, mode='cross', cell=False):
    """segment intersection"""
    m = M('mesh')
    P = (env.real('a', -8, 8), env.real('b', -8, 8)); v = (env.real('vx', -8, 8), env.real('vy', -8, 8))
    d = (env.real('dx', -8, 8), env.real('dy', -8, 8))
    cr = v[0] * d[1] - v[1] * d[0]
    he = m.HalfEdge(m.Vertex(P), m.Vertex((P[0] + v[0], P[1] + v[1])))
    if mode == 'cross':
        env.assume(Or(cr > .01, cr < -.01))
        t = env.real('t', -3, 3); u = env.real('u', -3, 3)       # the lines meet at P + t v = A + u d
        A = (P[0] + t * v[0] - u * d[0], P[1] + t * v[1] - u * d[1])
        want = And(t >= 0, t <= 1, u >= 0, u <= 1)
    elif mode == 'par':
        # line parallel to the edge at offset s
        lam = env.real('lam', -3, 3); t = env.real('t', -3, 3)
        if env.is_true(env.bit('point')): lam = 0 * lam             # a segment of length zero
        else: env.assume(Or(lam > .01, lam < -.01))
        if env.is_true(env.bit('vertical')): v = (0 * v[0], v[1]); env.assume(Or(v[1] > .1, v[1] < -.1)); he = m.HalfEdge(m.Vertex(P), m.Vertex((P[0], P[1] + v[1])))
        else: env.assume(Or(v[0] > .1, v[0] < -.1))
        d = (lam * v[0], lam * v[1])
        if env.bit('off'):
            s = env.real('s', -3, 3); env.assume(Or(s > .1, s < -.1)); want = False
        else: s = 0; want = And(Or(t >= 0, t + lam >= 0), Or(t <= 1, t + lam <= 1))
        A = (P[0] + t * v[0] - s * v[1], P[1] + t * v[1] + s * v[0])
    r = he.intersects_line_segment([A, (A[0] + d[0], A[1] + d[1])])
    env.prove('intersects', Iff(bool(r), want))

DIRS = [(1, 0), (0, 1), (1, 1), (2, -1), (-1, 3), (-1, 0), (-3, -2), (0, 0)]
def h_cellseg(env):
    """a segment meets a rectangle iff some point A + tau d, 0 <= tau <= 1, is in it (d = L times one of several directions)"""
    m = M('mesh')
    x0, x1, y0, y1 = 0., 2., 0., 1.
    vs = [m.Vertex(p) for p in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]
    cell = m.QuadCell([m.HalfEdge(vs[i], vs[(i + 1) % 4]) for i in range(4)])
    A = pts_(env, 1, -64, 64)[0]; L = env.pos('L', .01, 64)
    d = env.choice('dir', DIRS)
    r = bool(cell.intersects_line_segment([A, (A[0] + L * d[0], A[1] + L * d[1])]))
    def meets(tol):
        lo, hi, fix = [0], [L], []
        for k, (u, v) in enumerate(((x0 - tol, x1 + tol), (y0 - tol, y1 + tol))):
            if d[k] > 0: lo.append((u - A[k]) / d[k]); hi.append((v - A[k]) / d[k])
            elif d[k] < 0: lo.append((v - A[k]) / d[k]); hi.append((u - A[k]) / d[k])
            else: fix.append(And(A[k] >= u, A[k] <= v))
        return And(*(fix + [l <= h for l in lo for h in hi]))
    env.prove('meeting segment reported', Imp(meets(0), r)); env.prove('missing segment not reported', Imp(Not(meets(T_)), not r))

# ------------------------------------------------------------------ binning
PATS2 = {
    'p0': (1, 1, []), 'p1': (1, 1, [(0,)]), 'p2': (1, 1, [(0,), (0, 2)]), 'p3': (2, 1, [(1,)]), 'p4': (2, 1, [(0,), (0, 1)]),
    'p5': (2, 2, [(3,)]), 'p6': (1, 1, [(0,), (0, 0), (0, 3)]), 'p7': (3, 1, [(1,), (1, 2), (1, 2, 0)]), 'p8': (2, 2, [(0,), (1,), (2,), (3,)]),
}
PATS1 = {'q0': (1, []), 'q1': (2, [(0,)]), 'q2': (2, [(1,), (1, 0)]), 'q3': (3, [(1,), (1, 1), (1, 1, 0)]), 'q4': (1, [(0,), (0, 0), (0, 1), (0, 0, 1)])}

def mark_sub(env, mesh, pat, label):
    """symbolic rooted sub-forest: roots marked, children of a marked cell marked or not (together).  Returns marked bit per cell"""
    mk = {}
    for c in pat.cells:
        if len(c) == 1: mk[c] = True
    env.markall([node(mesh, c) for c in mk], label, True)
    for c in sorted(pat.split_set, key=len):
        b = env.bit('sub%s' % '_'.join(map(str, c)))
        b = And(mk[c], b)
        ch = [x for x in pat.cells if x[:-1] == c and len(x) == len(c) + 1]
        for x in ch: mk[x] = b
        env.markall([node(mesh, x) for x in ch], label, b)
    return mk

def leaf_bit(pat, mk, c):
    if c not in pat.split_set: return mk[c]
    return And(mk[c], Not(mk[c + (0,)]))

def check_bins(env, mesh, pat, X, P, bins, mk, idx, dim):
    by = {id(node(mesh, c)): c for c in pat.cells}
    got = []
    for cell, ii in bins:
        c = by.get(id(cell))
        env.prove('cell of the mesh', c is not None)
        if c is None: return
        env.prove('leaf of the sub-mesh', leaf_bit(pat, mk, c), c)
        cs = pat.corners(c); lo = X(cs[0]); hi = X(cs[2] if dim == 2 else cs[1])
        for i in np.atleast_1d(ii):
            got.append(int(i)); p = P[idx.index(int(i))]
            env.prove('cell contains the point', And(*[And(p[d] >= lo[d] - T_, p[d] <= hi[d] + T_) for d in range(dim)]), c)
    env.prove('each point once', sorted(got) == sorted(idx), got)

def _run_bins(env, mesh, pat, X, n, dim, sub, inside, own, as_vertices):
    m = M('mesh')
    if inside:
        P = []
        for i in range(n):
            t = tuple(env.real('t%d%s' % (i, 'xy'[k]), 0, 1) for k in range(dim))
            P.append(X(tuple(t[k] * (pat.nx, pat.ny)[k] for k in range(dim))))
    else: P = pts_(env, n, -128, 256, dim)
    mk = {c: True for c in pat.cells}
    flag = None
    if sub: flag = 'sub'; mk = mark_sub(env, mesh, pat, 'sub')
    idx = list(range(n)); kw = {}
    if own: idx = [7 + 3 * (n - i) for i in range(n)]; kw['i_points'] = np.array(idx)
    if as_vertices: arg = [m.Vertex(p if dim == 2 else p[0]) for p in P]
    else: arg = rows(P)
    if sub: kw['subforest_flag'] = flag
    lo = X((0,) * dim); hi = X((pat.nx, pat.ny)[:dim])
    try: bins = mesh.bin_points(arg, **kw)
    except AssertionError:
        env.prove('point in the domain rejected', Or(*[Or(p[d] < lo[d], p[d] > hi[d]) for p in P for d in range(dim)])); return
    env.prove('point outside the domain accepted', And(*[And(p[d] >= lo[d] - T_, p[d] <= hi[d] + T_) for p in P for d in range(dim)]))
    if not sub: mk = {c: True for c in pat.cells}
    check_bins(env, mesh, pat, X, P, bins, mk, idx, dim)

def h_bin2(env, pat='p1', n=1, sub=False, inside=True, own=False, vert=False, per=()):
    nx, ny, sp = PATS2[pat]
    mesh, p, X = qmesh(env, nx, ny, per)
    for c in sp: p.split(c)
    build(env, p, mesh)
    _run_bins(env, mesh, p, X, n, 2, sub, inside, own, vert)

def h_bin1(env, pat='q1', n=1, sub=False, inside=True, own=False, vert=False, per=False):
    nx, sp = PATS1[pat]
    mesh, p, X = imesh(env, nx, per)
    for c in sp: p.split(c)
    build(env, p, mesh)
    _run_bins(env, mesh, p, X, n, 1, sub, inside, own, vert)

def h_cellbin(env, dim=2, sub=False):
    """bin_points of a cell of the mesh: points of the cell go to leaves below it (or, if it is not in the sub-mesh, to the leaf around it)"""
    if dim == 2:
        mesh, p, X = qmesh(env, 1, 1)
        for c in [(0,), (0, 1), (0, 3)]: p.split(c)
    else:
        mesh, p, X = imesh(env, 1)
        for c in [(0,), (0, 1), (0, 1, 0)]: p.split(c)
    build(env, p, mesh)
    c = env.choice('cell', [x for x in p.cells if len(x) < 4])
    b = p.box(c)
    t = tuple(env.real('t%d' % k, 0, 1) for k in range(dim))
    P = [X(tuple(b[k][0] + t[k] * (b[k][1] - b[k][0]) for k in range(dim)))]
    mk = {x: True for x in p.cells}; kw = {}
    if sub: mk = mark_sub(env, mesh, p, 'sub'); kw['subforest_flag'] = 'sub'
    bins = node(mesh, c).bin_points(rows(P), **kw)
    check_bins(env, mesh, p, X, P, bins, mk, [0], dim)
    for cell, _ in bins:
        a = {id(node(mesh, x)): x for x in p.cells}[id(cell)]
        env.prove('related cell', a[:len(c)] == c or c[:len(a)] == a)

def h_general(env, n=1, depth=1):
    """two parallelogram cells from a point list"""
    m = M('mesh')
    a, b = env.real('a', -8, 8), env.real('b', -8, 8); s = env.real('s', -2, 2)
    w, h = env.pos('w', .1, 8), env.pos('h', .1, 8)
    co = [(a + w * i + s * j, b + h * j) for j in (0, 1) for i in (0, 1, 2)]
    mesh = m.QuadMesh(x=rows(co), connectivity=[[0, 1, 4, 3], [1, 2, 5, 4]])
    if depth: mesh.cells.get_child(env.choice('split', [0, 1])).split()
    t = [(env.real('t%dx' % i, 0, 2), env.real('t%dy' % i, 0, 1)) for i in range(n)]
    P = [(a + w * x + s * y, b + h * y) for x, y in t]
    bins = mesh.bin_points(rows(P))
    got = []
    for cell, ii in bins:
        env.prove('leaf', not cell.has_children())
        v0, v1, v2, v3 = [v.coordinates() for v in cell.get_vertices()]
        for i in np.atleast_1d(ii):
            got.append(int(i)); p = P[int(i)]
            env.prove('in the strip', And(p[1] >= v0[1] - T_, p[1] <= v3[1] + T_))
            # horizontal position relative to the slanted sides
            e = (p[0] - v0[0]) * h - (p[1] - v0[1]) * s
            env.prove('between the slanted sides', And(e >= -T_ * 100, e <= (v1[0] - v0[0]) * h + T_ * 100))
    env.prove('each point once', sorted(got) == list(range(n)))

def h_locate(env, nx=2, ny=2, flag=False):
    mesh, pat, X = qmesh(env, nx, ny)
    mk = {}
    if flag:
        for c in pat.cells: mk[c] = env.mark(node(mesh, c), 'f', 'm%d' % c[0])
    else: mk = {c: True for c in pat.cells}
    P = pts_(env, 1, -128, 256)[0]
    r = mesh.locate_point(rows([P]), flag='f' if flag else None)
    def ins(c, tol):
        cs = pat.corners(c); lo, hi = X(cs[0]), X(cs[2])
        return And(*[And(P[d] >= lo[d] - tol, P[d] <= hi[d] + tol) for d in (0, 1)])
    if r is None: env.prove('not found', And(*[Not(And(mk[c], ins(c, 0))) for c in pat.cells]))
    else:
        c = [c for c in pat.cells if node(mesh, c) is r][0]
        env.prove('found', And(mk[c], ins(c, T_)))

def tasks(tier):
    th = tier != 'quick'
    T = [('h_interval', dict(n=n)) for n in (1, 2)]
    T += [('h_edge', dict(kind=k, n=n)) for k in ('h', 'v', 'general') for n in (1, 2)]
    for s in range(4): T.append(('h_cell', dict(kind='rect', start=s, n=1)))
    T += [('h_cell', dict(kind='rect', n=2)), ('h_cell', dict(kind='para', n=1)), ('h_cell', dict(kind='gen3', n=1)), ('h_cell', dict(kind='gen2', start=2, n=1)),
          ('h_cell', dict(kind='gen3', start=1, n=1, tri=True)), ('h_cell', dict(kind='rect', n=1, tri=True))]
    T += [('h_seg', dict(mode=k)) for k in ('cross', 'par')] + [('h_cellseg', {})]
    for p in PATS2:
        T.append(('h_bin2', dict(pat=p, n=1, inside=False)))
        T.append(('h_bin2', dict(pat=p, n=1, sub=True)))
        if p in ('p0', 'p1', 'p2', 'p3') or th:
            T.append(('h_bin2', dict(pat=p, n=2, own=True)))
        if p in ('p1', 'p3', 'p5') or th: T.append(('h_bin2', dict(pat=p, n=2, sub=True, own=True)))
    T += [('h_bin2', dict(pat='p2', n=2, inside=False)), ('h_bin2', dict(pat='p3', n=2, vert=True)), ('h_bin2', dict(pat='p3', n=1, per=(0,), sub=True)), ('h_bin2', dict(pat='p1', n=3))]
    for p in PATS1:
        T.append(('h_bin1', dict(pat=p, n=1, inside=False)))
        T.append(('h_bin1', dict(pat=p, n=2, sub=True, own=True)))
        T.append(('h_bin1', dict(pat=p, n=2, vert=True)))
        T.append(('h_bin1', dict(pat=p, n=3 if len(p) else 2, own=True)))
    T += [('h_bin1', dict(pat='q2', n=2, per=True, sub=True))]
    for d in (1, 2):
        for s in (False, True): T.append(('h_cellbin', dict(dim=d, sub=s)))
    T += [('h_general', dict(n=1)), ('h_general', dict(n=1, depth=0)), ('h_locate', dict()), ('h_locate', dict(flag=True)), ('h_locate', dict(nx=3, ny=1, flag=True))]
    return T
