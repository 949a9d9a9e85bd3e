"""M02: splitting tiles the parent exactly, with consistent half-edges and shared nodes."""
import numpy as np, itertools
from fractions import Fraction as Fr
from .common import M, rows, any_sym, And, Or, quad
from .meshu import Pat, node, grow, qmesh, imesh, QC
from .genu import GPat, gmesh
MODS = ['mesh']
BOUNDS = ('intervals split in 2..4 parts and twice, half-edges in 1D/2D with arbitrary end points and twins split in either order, positions of descendants two (three) levels down, quadrilaterals: '
          'rectangles, parallelograms and general convex ones with symbolic corners split twice; meshes of up to 2x2 (3x2 thorough) cells on a symbolic '
          'box, all periodic settings, every history of up to 4 (2x2: 3, thorough 4) splits to depth 2 (3); meshes of general quadrilaterals on every affine box: two cells, an L, three or five cells around a vertex, a ring with a hole, two cells touching in a corner, cells numbered from any corner (all choices for the smaller ones), up to 2 splits and fixed deeper patterns; histories in which cells are also removed again (coarsening): up to 2 steps on top of fixed patterns')
OUTSIDE = 'other layouts of general quadrilaterals, triangular cells (no split), non-convex quadrilaterals, deeper histories'

def chk_itv(env, itv, x0, x1, n):
    ch = list(itv.get_children())
    env.prove('number', len(ch) == n)
    for i, c in enumerate(ch):
        env.eq('interval ends', [c.base().coordinates()[0], c.head().coordinates()[0]], [x0 + (x1 - x0) * i / n, x0 + (x1 - x0) * (i + 1) / n])
        env.prove('links', c.get_parent() is itv and c.get_node_position() == i and c.get_depth() == itv.get_depth() + 1)
        env.prove('ordered', c.base().coordinates()[0] < c.head().coordinates()[0])
        if i: env.prove('shared vertex', c.base() is ch[i - 1].head() and c.previous() is ch[i - 1] and ch[i - 1].next() is c)
        env.eq('length', c.length() * n, itv.length())
    env.prove('outer vertices', ch[0].base() is itv.base() and ch[-1].head() is itv.head())

def h_interval(env, n=2, n2=2):
    m = M('mesh')
    a = env.real('a'); w = env.pos('w')
    itv = m.Interval(m.Vertex(a), m.Vertex(a + w), n_children=n, regular=(n == n2))
    env.prove('unsplit', not itv.has_children())
    itv.split(n_children=n2)
    chk_itv(env, itv, a, a + w, n)
    for i, c in enumerate(itv.get_children()):
        c.split(); chk_itv(env, c, a + w * i / n, a + w * (i + 1) / n, n2)

def chk_he(env, he, p, q):
    c = list(he.get_children())
    env.prove('two', len(c) == 2)
    mid = [(s + t) / 2 for s, t in zip(p, q)]
    env.eq('midpoint', list(c[0].head().coordinates()), mid)
    env.prove('chain', c[0].base() is he.base() and c[1].head() is he.head() and c[0].head() is c[1].base())
    env.prove('links', all(ci.get_parent() is he and ci.get_node_position() == i for i, ci in enumerate(c)))
    env.prove('periodic inherited', all(ci.is_periodic() == he.is_periodic() for ci in c))

def twins_ok(env, h, g, depth=0):
    "h, g are twins: check the children recursively"
    env.prove('twin symmetric', h.twin() is g and g.twin() is h)
    env.prove('twin reversed', h.is_periodic() or (h.base() is g.head() and h.head() is g.base()))
    if h.has_children() and g.has_children():
        twins_ok(env, h.get_child(0), g.get_child(1)); twins_ok(env, h.get_child(1), g.get_child(0))

def h_he(env, dim=2, order='ab', periodic=False):
    """splits of a half-edge and its twin (and their children) in every order"""
    m = M('mesh')
    p = tuple(env.real('p%d' % k) for k in range(dim)); q = tuple(env.real('q%d' % k) for k in range(dim))
    P, Q = m.Vertex(p if dim > 1 else p[0]), m.Vertex(q if dim > 1 else q[0])
    if periodic:
        sh = tuple(env.real('s%d' % k) for k in range(dim))
        R, S_ = m.Vertex(tuple(x + y for x, y in zip(q, sh))), m.Vertex(tuple(x + y for x, y in zip(p, sh)))
        h = m.HalfEdge(P, Q, periodic=True); g = m.HalfEdge(R, S_, periodic=True)
        h.assign_twin(g); g.assign_twin(h)
    else:
        h = m.HalfEdge(P, Q); sh = (0,) * dim
        if order[0] == 'm': g = h.make_twin(); order = order[1:]
        else:
            g = m.HalfEdge(Q, P); h.assign_twin(g); g.assign_twin(h)
    todo = {'a': h, 'b': g}
    pos = {'a': (p, q), 'b': (tuple(x + y for x, y in zip(q, sh)), tuple(x + y for x, y in zip(p, sh)))}
    for s in order:
        he = todo[s]; he.split(); chk_he(env, he, *pos[s])
        u, v = pos[s]; mid = tuple((x + y) / 2 for x, y in zip(u, v))
        for k, c in enumerate(he.get_children()):
            key = {'a': 'cd', 'b': 'ef'}.get(s, '  ')[k]
            todo[key] = c; pos[key] = (u, mid) if k == 0 else (mid, v)
        twins_ok(env, h, g)

def corners(env, kind, start, sg=0):
    a, b = env.real('a', -64, 64), env.real('b', -64, 64)
    if kind == 'rect':
        w, h = env.pos('w', .001), env.pos('h', .001)
        c = [(a, b), (a + w, b), (a + w, b + h), (a, b + h)]
    elif kind == 'para':
        u = (env.real('ux', -8, 8), env.real('uy', -8, 8)); v = (env.real('vx', -8, 8), env.real('vy', -8, 8))
        if sg: env.assume(u[0] > .01); env.assume(u[1] * sg > .01); env.assume(v[0] * sg < -.01); env.assume(v[1] > .01)
        env.assume(u[0] * v[1] - u[1] * v[0] > .001)
        c = [(a, b), (a + u[0], b + u[1]), (a + u[0] + v[0], b + u[1] + v[1]), (a + v[0], b + v[1])]
    else:
        u, v = ((1., .25), (-.5, 1.)) if kind in ('gen1', 'gen3') else ((2., -.5), (.25, .75))
        s = env.pos('s'); t = 1.25 if kind == 'gen3' else env.pos('t'); env.assume(s + t > 1.001); env.assume(s < 16)
        if kind != 'gen3': env.assume(t < 16)
        c = [(a, b), (a + u[0], b + u[1]), (a + s * u[0] + t * v[0], b + s * u[1] + t * v[1]), (a + v[0], b + v[1])]
    return c[start:] + c[:start]

def mean(*ps): return tuple(sum(x) / len(ps) for x in zip(*ps))

def chk_quad(env, cell, c):
    """children of a split quadrilateral with corners c"""
    ch = list(cell.get_children())
    env.prove('four', len(ch) == 4)
    mid = [mean(c[i], c[(i + 1) % 4]) for i in range(4)]; ctr = mean(*c)
    exp = [[c[0], mid[0], ctr, mid[3]], [mid[0], c[1], mid[1], ctr], [ctr, mid[1], c[2], mid[2]], [mid[3], ctr, mid[2], c[3]]]
    tot = 0
    for i, k in enumerate(ch):
        v = k.get_vertices()
        for p, e in zip(v, exp[i]): env.eq('corner', list(p.coordinates()), list(e))
        env.prove('links', k.get_parent() is cell and k.get_node_position() == i)
        ar = k.area(); env.prove('ccw', ar > 0); tot = tot + ar
        hes = k.get_half_edges()
        for j, he in enumerate(hes):
            env.prove('loop', he.cell() is k and he.next() is hes[(j + 1) % 4] and he.previous() is hes[j - 1] and he.head() is hes[(j + 1) % 4].base())
            env.prove('incident', k.incident_half_edge(he.head()) is he and k.incident_half_edge(he.base(), reverse=True) is he)
        # inner sides are shared with the cyclic neighbours
        for j, he in enumerate(hes):
            for o in ch:
                if o is k: continue
                for g in o.get_half_edges():
                    if g.base() is he.head() and g.head() is he.base(): env.prove('inner twin', he.twin() is g and g.twin() is he)
        env.prove('inner shared', sum(1 for he in hes if he.twin() is not None and he.twin().cell() in ch) == 2)
        outer = [he for he in hes if he.has_parent() and he.get_parent().cell() is cell]
        env.prove('outer sides', len(outer) == 2)
    env.eq('area', tot, cell.area())
    P = cell.get_vertices()
    for i in range(4): env.prove('corner object', ch[i].get_vertex(i) is P[i])
    for i in range(4):
        env.prove('midpoint object', ch[i].get_vertex((i + 1) % 4) is ch[(i + 1) % 4].get_vertex(i))
        env.prove('centre object', ch[i].get_vertex((i + 2) % 4) is ch[0].get_vertex(2))
    return exp

def h_quad(env, kind='rect', start=0, depth=2, flag=None, sg=0):
    m = M('mesh')
    c = corners(env, kind, start, sg)
    vs = [m.Vertex(p) for p in c]
    cell = m.QuadCell([m.HalfEdge(vs[i], vs[(i + 1) % 4]) for i in range(4)])
    if kind in ('rect', 'gen1', 'gen2'): env.prove('is_rectangle', cell.is_rectangle() == (kind == 'rect'))
    cell.split(flag=flag) if flag else cell.split()
    if flag: env.prove('children flagged', all(k.is_marked(flag) for k in cell.get_children()))
    exp = chk_quad(env, cell, c)
    if depth > 1:
        i = env.choice('child', [0, 1, 2, 3])
        cell.get_child(i).split(); chk_quad(env, cell.get_child(i), exp[i])
        j = env.choice('second', [k for k in range(4) if k != i])
        cell.get_child(j).split(); chk_quad(env, cell.get_child(j), exp[j])
        pts = {}
        for k in (i, j):
            for g in cell.get_child(k).get_children():
                for v in g.get_vertices(): pts.setdefault(id(v), v)
        V = list(pts.values())
        for u, v in itertools.combinations(V, 2):
            env.prove('one object per place', Or(u.coordinates()[0] != v.coordinates()[0], u.coordinates()[1] != v.coordinates()[1]))

def chk_mesh(env, mesh, pat, X):
    """whole-mesh invariants of a refined quadrilateral grid against its pattern"""
    obj = {}; where = {}; hes = {}
    for c in pat.cells:
        k = node(mesh, c); vs = k.get_vertices(); cs = pat.corners(c)
        for v, p in zip(vs, cs):
            if p in obj: env.prove('one vertex object per place', obj[p] is v, p)
            else: obj[p] = v; env.eq('vertex coordinates', list(v.coordinates()), list(X(p)))
            env.prove('one place per vertex object', where.setdefault(id(v), p) == p, p)
        env.prove('tree', k.has_children() == (c in pat.split_set) and k.get_depth() == pat.depth(c))
        hh = k.get_half_edges()
        for i, he in enumerate(hh):
            env.prove('loop', he.cell() is k and he.next() is hh[(i + 1) % 4] and he.previous() is hh[i - 1])
            hes[(cs[i], cs[(i + 1) % 4])] = he
    def img(p, q):
        out = [(p, q)]
        for a in pat.per:
            n = (pat.nx, pat.ny)[a]
            if p[a] == q[a] and p[a] in (0, n):
                z = n - p[a]; f = lambda t: tuple(z if k == a else x for k, x in enumerate(t))
                out.append((f(p), f(q)))
        return out
    for (p, q), he in hes.items():
        tw = [hes[(s, r)] for r, s in img(p, q) if (s, r) in hes]
        # on a periodic grid one cell wide a side and its image may both belong to the cell: the twin is the opposite side
        if tw: env.prove('twin', any(he.twin() is t for t in tw) and he.twin().twin() is he, (p, q))
        else: env.prove('no twin', he.twin() is None or he.twin().cell() is None, (p, q))
        if he.has_children():
            a, b = he.get_children(); mid = tuple((x + y) / 2 for x, y in zip(p, q))
            env.prove('half-edge children', a.base() is he.base() and b.head() is he.head() and a.head() is b.base())
            if mid in obj: env.prove('half-edge midpoint', a.head() is obj[mid], (p, q))
            for u, v in ((p, mid), (mid, q)):
                if (u, v) in hes: env.prove('cell uses half-edge child', hes[(u, v)] in (a, b), (u, v))
    tot = 0
    for c in pat.leaves(): tot = tot + node(mesh, c).area()
    if isinstance(pat, GPat): size = pat.scale[0] * pat.scale[1] * (pat.area0() if env.symbolic else float(pat.area0()))
    else: (x0, y0), (x1, y1) = X((0, 0)), X((pat.nx, pat.ny)); size = (x1 - x0) * (y1 - y0)
    env.eq('leaves tile the domain', tot, size)
    env.prove('leaves', {id(n) for n in mesh.cells.get_leaves()} == {id(node(mesh, c)) for c in pat.leaves()})
    if pat.per:
        live = {id(node(mesh, c)) for c in pat.cells}
        for p, v in obj.items():
            imgs = {o for o in obj if pat.norm(o) == pat.norm(p)}
            on = any((p[a] in (0, (pat.nx, pat.ny)[a])) for a in pat.per)
            if not on:
                env.prove('not periodic', not v.is_periodic(), p); continue
            for cell, u in v.get_periodic_pair():
                q = where.get(id(u))
                if getattr(pat, 'merged', False) and id(cell) not in live: continue      # a removed cell
                env.prove('periodic image', q is not None and pat.norm(q) == pat.norm(p) and any(w is u for w in cell.get_vertices()), (p, q))
    return obj, hes

def h_mesh(env, nx=1, ny=1, per=(), k=2, maxd=2, first=None, coarse=False):
    mesh, pat, X = qmesh(env, nx, ny, per)
    if first:
        for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    chk_mesh(env, mesh, pat, X)

def h_gen(env, layout='pair', rot='any', order=None, k=1, maxd=2, first=(), shear=0, coarse=False):
    """meshes of general quadrilaterals: any connectivity and starting corners"""
    mesh, pat, X = gmesh(env, layout, rot, order=order, shear=shear)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    chk_mesh(env, mesh, pat, X)

def h_refine(env, nx=2, ny=1, per=(), rounds=2):
    """uniform refinement through the forest interface"""
    mesh, pat, X = qmesh(env, nx, ny, per)
    for _ in range(rounds):
        mesh.cells.refine()
        for c in pat.leaves(): pat.split(c)
    chk_mesh(env, mesh, pat, X)

def h_mesh1(env, n=2, per=False, k=3, maxd=3, first=(), coarse=False):
    mesh, pat, X = imesh(env, n, per)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    obj = {}
    for c in pat.cells:
        k_ = node(mesh, c)
        for v, p in zip(k_.get_vertices(), pat.corners(c)):
            if p in obj: env.prove('one vertex object per place', obj[p] is v, p)
            else: obj[p] = v; env.eq('vertex coordinates', v.coordinates()[0], X(p)[0])
        if c in pat.split_set: chk_itv(env, k_, X(pat.corners(c)[0])[0], X(pat.corners(c)[1])[0], 2)
    env.prove('objects distinct', len({id(v) for v in obj.values()}) == len(obj))

def h_position(env, kind='itv', depth=2):
    """relative position and width of a descendant (or of itself)"""
    m = M('mesh')
    if kind == 'itv':
        n = env.choice('n', (2, 3)); a = env.real('a'); w = env.pos('w')
        top = m.Interval(m.Vertex(a), m.Vertex(a + w), n_children=n); dim = 1
        ends = lambda k: [(k.base().coordinates()[0],), (k.head().coordinates()[0],)]
    elif kind == 'edge':
        a, b = env.real('a'), env.real('b'); s = env.choice('dir', ('gen', 'h', 'v'))
        dx = env.real('dx', .1, 64); dy = 0 * a
        if s == 'gen': dy = env.real('dy', -64, 64); env.assume(dy * dy > .01)
        if s == 'v': dx, dy = dy, dx
        if env.is_true(env.bit('back')): dx, dy = -dx, -dy
        top = m.HalfEdge(m.Vertex((a, b)), m.Vertex((a + dx, b + dy))); n = 2; dim = 1
    else:
        c = corners(env, 'rect', 0); top = quad(m, c); n = 4; dim = 2
        if kind == 'forest': m.Forest([quad(m, [(p[0] - 1e3, p[1]) for p in c]), top])
    rel = [(top, (0,) * dim, 1)]; cell = top
    for k in range(depth):
        cell.split(); j = env.choice('child%d' % k, range(n)); cell = cell.get_child(j)
        _, p, wd = rel[-1]
        wd = Fr(wd) / (n if dim == 1 else 2); o = (j,) if dim == 1 else QC[j]
        rel.append((cell, tuple(x + y * wd for x, y in zip(p, o)), wd))
    for i, (big, p, wd) in enumerate(rel):
        for small, q, ws in rel[i:]:
            pos, width = big.subcell_position(small)
            env.close('width', width, float(ws / wd), 1e-12)
            env.close('position', np.array(pos).ravel(), [float((y - x) / wd) for x, y in zip(p, q)], 1e-12)

def h_winding(env, n=4, free=(2,), turn=1, loop=False):
    """four (three) corners, some of them anywhere: a cell is made of them exactly when they run counter-clockwise, and its area is theirs"""
    m = M('mesh')
    base = [(0., 0.), (4., 1.), (3., 5.), (-1., 3.)][:n]
    if turn < 0: base = base[::-1]
    P = [(env.real('x%d' % i, -16, 16), env.real('y%d' % i, -16, 16)) if i in free else p for i, p in enumerate(base)]
    a2 = 0
    for (x0, y0), (x1, y1) in zip(P, P[1:] + P[:1]): a2 = a2 + x0 * y1 - x1 * y0
    vs = [m.Vertex(p) for p in P]
    hes = [m.HalfEdge(vs[i], vs[(i + 1) % n]) for i in range(n)]
    if loop: hes[-1] = m.HalfEdge(vs[n - 1], vs[1])          # not closed
    try: cell = m.QuadCell(hes) if n == 4 else m.Cell(hes)
    except AssertionError: cell = None
    if loop: env.prove('open loop rejected', cell is None); return
    if cell is None: env.prove('counter-clockwise rejected', a2 <= 0); return
    env.prove('clockwise accepted', a2 > 0)
    env.eq('area', cell.area() * 2, a2)
    for i in range(n):
        env.prove('vertices', cell.get_vertex(i) is vs[i] and cell.get_vertices()[i] is vs[i] and cell.get_half_edge(i) is hes[i])
        env.prove('links', hes[i].next() is hes[(i + 1) % n] and hes[i].previous() is hes[i - 1] and hes[i].cell() is cell)
        env.prove('incident', cell.incident_half_edge(vs[i]) is hes[i - 1] and cell.incident_half_edge(vs[i], reverse=True) is hes[i])
        env.eq('vector', list(hes[i].to_vector()), [P[(i + 1) % n][0] - P[i][0], P[(i + 1) % n][1] - P[i][1]])
    env.prove('counts', cell.n_vertices() == n and cell.n_half_edges() == n)

def tasks(tier):
    th = tier != 'quick'
    T = [('h_interval', dict(n=n, n2=n)) for n in (2, 3, 4)]
    for dim in (1, 2):
        for o in ('ab', 'ba', 'abcdef', 'acbefd', 'bfaedc', 'abfced', 'mab', 'mba', 'mabecdf'):
            T.append(('h_he', dict(dim=dim, order=o)))
            if o[0] != 'm' : T.append(('h_he', dict(dim=dim, order=o, periodic=True)))
    for s in range(4): T.append(('h_quad', dict(kind='rect', start=s)))
    for s in range(4): T += [('h_quad', dict(kind='para', start=s, depth=1))] + [('h_quad', dict(kind='para', start=s, depth=2, sg=g)) for g in (1, -1) if s == 0 or th]
    for s in range(4):
        for k in ('gen1', 'gen2'): T.append(('h_quad', dict(kind=k, start=s, depth=2 if th or s == 0 else 1)))
    T.append(('h_quad', dict(kind='rect', flag='f')))
    for lay in ('pair', 'three', 'L', 'ring', 'touch', 'para'):
        T.append(('h_gen', dict(layout=lay, k=1 if lay in ('pair', 'touch', 'para') or th else 0)))
        T.append(('h_gen', dict(layout=lay, rot=(0, 1, 2, 3), k=2, shear=.5)))
        T.append(('h_gen', dict(layout=lay, rot=(3, 1, 0, 2), order=(1, 0, 3, 2) if lay == 'ring' else (1, 0, 2) if lay in ('three', 'L') else None, k=1, maxd=3, first=((0,), (1,), (0, 2), (1, 0)))))
    T += [('h_gen', dict(layout='five', rot=r, k=1)) for r in ((0, 0, 0, 0, 0), (0, 1, 2, 3, 1))]
    T += [('h_position', dict(kind=k, depth=3 if th else 2)) for k in ('itv', 'edge', 'quad', 'forest')]
    T += [('h_winding', dict(n=n, free=fr, turn=t)) for n in (4, 3) for fr in ((0,), (1,), (2,), (3,) if n == 4 else (0, 1, 2)) for t in (1, -1)] + [('h_winding', dict(n=n, loop=True)) for n in (3, 4)]
    K = 4
    for (nx, ny) in ((1, 1), (2, 1), (1, 2), (2, 2)) + (((3, 2),) if th else ()):
        for per in ((), (0,), (1,), (0, 1)):
            if (0 in per and nx == 1) or (1 in per and ny == 1): continue
            kk = K - 1 if nx * ny == 4 and not th else K
            if nx * ny > 4: kk = 3
            T.append(('h_mesh', dict(nx=nx, ny=ny, per=per, k=kk, maxd=3 if th else 2)))
            T.append(('h_refine', dict(nx=nx, ny=ny, per=per, rounds=2)))
            if nx * ny == 2:
                T.append(('h_mesh', dict(nx=nx, ny=ny, per=per, k=2, maxd=3, first=[(0,), (0, 1), (1,)])))
    for n in (1, 2, 3):
        T.append(('h_mesh1', dict(n=n, k=3)))
        if n > 1: T.append(('h_mesh1', dict(n=n, per=True, k=3)))
    for nx, ny, per in ((1, 1, ()), (2, 1, ()), (2, 1, (0,)), (2, 2, (0, 1))):
        fst = tuple((i,) for i in range(nx * ny))
        T.append(('h_mesh', dict(nx=nx, ny=ny, per=per, k=3 if nx * ny == 1 or th else 2, first=fst, coarse=True)))
        T.append(('h_mesh', dict(nx=nx, ny=ny, per=per, k=2, maxd=3, first=fst + ((0, 1), (nx * ny - 1, 0)), coarse=True)))
    for lay in ('pair', 'L'): T.append(('h_gen', dict(layout=lay, rot=(3, 1, 0, 2), k=2 if th or lay == 'pair' else 1, first=((0,), (1,), (0, 2)), coarse=True)))
    for per in (False, True): T.append(('h_mesh1', dict(n=2, per=per, k=3, first=((0,), (1,), (0, 1)), coarse=True)))
    return T
