"""M08: grid construction gives a valid half-edge structure for every box and resolution."""
import os, tempfile, builtins
import numpy as np
from .common import M, Or, And, Not, Iff, any_sym
MODS = ['mesh']
BOUNDS = ('1D resolutions 1..4, 2D resolutions up to 3x3, arbitrary real boxes, all '
          'periodic settings, grids from explicit point/face lists with symbolic coordinates under vertex renumbering, face reordering and face rotation, '
          'including mixed triangles and quadrilaterals; gmsh files (2.2) of triangles or of quadrilaterals with contiguous node numbers, zero to three tags, with and without region names, boundary lines and points')
OUTSIDE = 'gmsh files of other versions, of higher-order elements or of lines only, larger resolutions (cells smaller than a millionth of the box)'

def box1(env, per):
    return env.real('a'), env.pos('w')
def box2(env, per):
    a, w = box1(env, per)
    return a, w, env.real('b'), env.pos('h')

def h_1d(env, n=3, per=False, how='box'):
    m = M('mesh')
    a, w = box1(env, per)
    xs = [a + w * i / n for i in range(n + 1)]
    if how == 'box': mesh = m.Mesh1D(box=[a, a + w], resolution=(n,), periodic=per)
    elif how == 'dcel': mesh = m.Mesh1D(dcel=m.DCEL(box=[a, a + w], resolution=(n,), periodic={0} if per else None))
    elif how == 'default':
        mesh = m.Mesh1D(resolution=(n,), periodic=per); xs = [i / float(n) for i in range(n + 1)]
    elif how == 'x':
        # points given out of order, arbitrary spacing
        g = [env.pos('g%d' % i) for i in range(n)]
        xs = [a]
        for gi in g: xs.append(xs[-1] + gi)
        x = np.array([[t] for t in (xs[::2] + xs[1::2])], dtype=object if any_sym(xs) else float)
        mesh = m.Mesh1D(x=x)
    d = mesh.dcel
    env.prove('dim', d.dim() == 1 and mesh.dim() == 1)
    env.prove('counts', d.points['n'] == n + 1 and d.half_edges['n'] == n and mesh.cells.n_children() == n and len(mesh.vertices) == n + 1)
    env.eq('points', [p[0] for p in d.points['coordinates']], xs)
    for i in range(n):
        env.prove('connectivity', list(d.half_edges['connectivity'][i]) == [i, i + 1])
        nx = i + 1 if i + 1 < n else (0 if per else -1); pv = i - 1 if i > 0 else (n - 1 if per else -1)
        env.prove('next/prev', d.half_edges['next'][i] == nx and d.half_edges['prev'][i] == pv, i)
        c = mesh.cells.get_child(i)
        env.eq('interval', [c.base().coordinates()[0], c.head().coordinates()[0]], [xs[i], xs[i + 1]])
        env.prove('interval vertices', c.base() is mesh.vertices[i] and c.head() is mesh.vertices[i + 1])
        env.prove('linked', (c.next() is mesh.cells.get_child(i + 1)) if i + 1 < n else c.next() is None)
        env.prove('linked', (c.previous() is mesh.cells.get_child(i - 1)) if i > 0 else c.previous() is None)
        for p in (0, 1):
            nb = d.get_neighbor(i, i + p)
            k = nx if p else pv
            env.prove('get_neighbor', nb is None if k == -1 else nb == k, (i, p))
        env.prove('periodic interval', c.is_periodic() == (per and i in (0, n - 1)))
    for i in range(n + 1):
        v = mesh.vertices[i]
        env.prove('periodic vertex', v.is_periodic() == (per and i in (0, n)))
    if per:
        env.prove('pairs', mesh.vertices[0].get_periodic_pair() == {(mesh.cells.get_child(n - 1), mesh.vertices[n])} and
                  mesh.vertices[n].get_periodic_pair() == {(mesh.cells.get_child(0), mesh.vertices[0])})
    else: env.prove('boundary points', sorted(d.get_boundary_points()) == [0, n])
    env.prove('is_periodic', mesh.is_periodic() == per)
    env.eq('bounding box', list(mesh.bounding_box()), [xs[0], xs[-1]])

def chk_dcel2(env, mesh, coords, faces, per, same_edge):
    """coords: expected coordinates; faces: expected point lists (any rotation); same_edge(i,j): half-edge i,j (point pairs) are the same edge reversed"""
    d = mesh.dcel; H = d.half_edges
    nf = len(faces); nh = sum(len(f) for f in faces)
    env.prove('counts', d.points['n'] == len(coords) and H['n'] == nh and d.faces['n'] == nf and mesh.cells.n_children() == nf and len(mesh.vertices) == len(coords))
    env.eq('points', [c for p in d.points['coordinates'] for c in p], [c for p in coords for c in p])
    for v, p in zip(mesh.vertices, coords): env.eq('vertex', list(v.coordinates()), list(p))
    conn = [tuple(int(k) for k in H['connectivity'][i]) for i in range(nh)]
    used = []
    for f in range(nf):
        i = i0 = int(d.faces['half_edge'][f]); loop = []
        for _ in range(len(faces[f])):
            loop.append(i); i = int(H['next'][i])
        used += loop
        env.prove('closed', i == i0 and len(set(loop)) == len(faces[f]), f)
        pts = [conn[i][0] for i in loop]
        env.prove('face points', any(pts == faces[f][k:] + faces[f][:k] for k in range(len(pts))), f)
        for a, b in zip(loop, loop[1:] + loop[:1]):
            env.prove('next/prev', int(H['next'][a]) == b and int(H['prev'][b]) == a and int(H['face'][a]) == f and conn[a][1] == conn[b][0], (f, a))
        cell = mesh.cells.get_child(f)
        vs = cell.get_vertices()
        k = [i for i, v in enumerate(mesh.vertices) if v is vs[0]][0]
        j = faces[f].index(k)
        env.prove('cell vertices', [id(v) for v in vs] == [id(mesh.vertices[i]) for i in faces[f][j:] + faces[f][:j]])
        ar = 0
        for (p, q) in zip(faces[f], faces[f][1:] + faces[f][:1]): ar = ar + (coords[p][0] * coords[q][1] - coords[q][0] * coords[p][1])
        env.eq('area', cell.area() * 2, ar); env.prove('ccw', cell.area() > 0)
        hes = cell.get_half_edges()
        for he, hn in zip(hes, hes[1:] + hes[:1]):
            env.prove('cell half-edges', he.cell() is cell and he.next() is hn and hn.previous() is he and he.head() is hn.base())
    env.prove('half-edges used once', sorted(used) == list(range(nh)))
    for p in range(len(coords)):
        env.prove('point half-edge', conn[int(d.points['half_edge'][p])][0] == p, p)
    geo = {}
    for i in range(nh):
        js = [j for j in range(nh) if same_edge(conn[i], conn[j])]
        env.prove('at most one twin', len(js) <= 1)
        t = int(H['twin'][i])
        env.prove('twin', t == (js[0] if js else -1), (conn[i], conn[t] if t >= 0 else None))
        f = int(H['face'][i]); nb = d.get_neighbor(f, i)
        env.prove('get_neighbor', (nb is None) if not js else nb == int(H['face'][js[0]]), conn[i])
        he = mesh.half_edges.get_child(i)
        env.prove('HalfEdge ends', he.base() is mesh.vertices[conn[i][0]] and he.head() is mesh.vertices[conn[i][1]])
        env.prove('HalfEdge twin', (he.twin() is None) if not js else he.twin() is mesh.half_edges.get_child(js[0]))
        env.prove('HalfEdge periodic', he.is_periodic() == (bool(js) and conn[js[0]] != conn[i][::-1]))
    bnd = [i for i in range(nh) if int(H['twin'][i]) == -1]
    seg = d.get_boundary_half_edges()
    env.prove('boundary once', sorted(i for s in seg for i in s) == bnd)
    for s in seg:
        env.prove('boundary chained', all(conn[a][1] == conn[b][0] for a, b in zip(s, s[1:])), s)
    env.prove('boundary points', sorted(set(int(i) for i in d.get_boundary_points())) == sorted({conn[i][0] for i in bnd} if not per else {conn[i][0] for i in bnd}))

def h_2d(env, nx=2, ny=2, per=(), how='box'):
    m = M('mesh')
    a, w, b, h = box2(env, bool(per))
    kw = dict(box=[a, a + w, b, b + h], resolution=(nx, ny))
    if how == 'default': kw.pop('box'); a, w, b, h = 0., 1., 0., 1.
    if how == 'dcel': mesh = m.QuadMesh(dcel=m.DCEL(periodic=set(per) if per else None, **kw))
    elif how == 'mesh2d': mesh = m.Mesh2D(periodic=set(per) if per else None, **kw)
    else: mesh = m.QuadMesh(periodic=set(per) if per else None, **kw)
    coords = [(a + w * i / nx, b + h * j / ny) for j in range(ny + 1) for i in range(nx + 1)]
    P = lambda i, j: i + j * (nx + 1)
    faces = [[P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)] for j in range(ny) for i in range(nx)]
    def ident(p):
        i, j = p % (nx + 1), p // (nx + 1)
        if 0 in per and i == nx: i = 0
        if 1 in per and j == ny: j = 0
        return P(i, j)
    def horiz(e): return e[0] // (nx + 1) == e[1] // (nx + 1)
    def side(e):
        "(axis, line, from, to) with periodic lines identified"
        i0, j0, i1, j1 = e[0] % (nx + 1), e[0] // (nx + 1), e[1] % (nx + 1), e[1] // (nx + 1)
        if j0 == j1: return (0, 0 if (1 in per and j0 == ny) else j0, i0, i1)
        return (1, 0 if (0 in per and i0 == nx) else i0, j0, j1)
    def same(e, f):
        s, t = side(e), side(f)
        return s[:2] == t[:2] and (s[2], s[3]) == (t[3], t[2])
    chk_dcel2(env, mesh, coords, faces, per, same)
    for k, c in enumerate([mesh.cells.get_child(i) for i in range(nx * ny)]):
        env.prove('rectangle', c.is_rectangle() and c.n_half_edges() == 4)
        env.eq('uniform', c.area() * (nx * ny), w * h)
        v = c.get_vertices()
        env.eq('south-west first', list(v[0].coordinates()), list(coords[faces[k][0]]))
    env.prove('is_periodic', mesh.is_periodic() == bool(per) and mesh.is_periodic({0}) == (0 in per) and mesh.is_periodic({1}) == (1 in per) and mesh.is_periodic({0, 1}) == (len(per) == 2))
    env.eq('bounding box', list(mesh.bounding_box()), [a, a + w, b, b + h])
    env.prove('quadmesh', mesh.is_quadmesh() and mesh.is_rectangular())
    # periodic vertices
    for p in range(len(coords)):
        v = mesh.vertices[p]
        cls = [q for q in range(len(coords)) if ident(q) == ident(p)]
        env.prove('periodic vertex', v.is_periodic() == (len(cls) > 1), p)
        if len(cls) > 1:
            got = {id(u) for c, u in v.get_periodic_pair()}
            env.prove('periodic pair', got == {id(mesh.vertices[q]) for q in cls}, p)

SHAPES = {
    'quads': ([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2)], [[0, 1, 4, 3], [1, 2, 5, 4], [3, 4, 7, 6]]),
    'mixed': ([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)], [[0, 1, 4, 3], [1, 2, 4], [2, 5, 4]]),
    'tri': ([(0, 0), (2, 0), (2, 2), (0, 2), (1, 1), (3, 1)], [[0, 1, 4], [1, 2, 4], [2, 3, 4], [4, 3, 0], [1, 5, 2]]),
    'two': ([(0, 0), (1, 0), (1, 1), (0, 1), (3, 0), (4, 0), (4, 1), (3, 1)], [[0, 1, 2, 3], [4, 5, 6, 7]]),
    'ring': ([(i, j) for j in range(4) for i in range(4)], [[i + 4 * j, i + 1 + 4 * j, i + 5 + 4 * j, i + 4 + 4 * j] for j in range(3) for i in range(3) if (i, j) != (1, 1)]),
    'L3': ([(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (1, 1), (2, 1), (3, 1), (0, 2), (1, 2)], [[0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [4, 5, 9, 8]]),
}

GMSH = {3: 2, 4: 3, 2: 1, 1: 15}
def gmsh(m, coords, faces, tags, names, lines):
    """a mesh read from a gmsh (2.2) file with these points and elements; coordinates that are symbolic are written as tokens, which
    the module's conversion to numbers resolves"""
    tok = {}
    def num(x):
        if not any_sym([x]): return repr(builtins.float(x))
        tok['@%d' % len(tok)] = x
        return '@%d' % (len(tok) - 1)
    el = [[p] for p in range(len(coords))[:2]] if lines else []
    if lines: el += [list(e) for f in faces for e in zip(f, f[1:] + f[:1])]
    L = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat']
    if names: L += ['$PhysicalNames', str(len(names))] + ['%d %d "%s"' % t for t in names] + ['$EndPhysicalNames']
    L += ['$Nodes', str(len(coords))] + ['%d %s %s 0' % (i + 1, num(c[0]), num(c[1])) for i, c in enumerate(coords)] + ['$EndNodes']
    L += ['$Elements', str(len(el) + len(faces))]
    for i, f in enumerate(el + faces): L.append(' '.join(str(k) for k in [i + 1, GMSH[len(f)], tags] + [7 + t for t in range(tags)] + [k + 1 for k in f]))
    L += ['$EndElements', '']
    with tempfile.TemporaryDirectory(dir=os.environ.get('QM_SCRATCH')) as d:
        p = os.path.join(d, 'x.msh')
        with open(p, 'w') as fh: fh.write('\n'.join(L))
        if tok: m.float = lambda s: tok[s] if s in tok else builtins.float(s)
        try: return m.Mesh2D(file_path=p)
        finally:
            if tok: del m.float

def h_conn(env, shape='quads', perm='id', free=(), file=None):
    m = M('mesh')
    base, faces = SHAPES[shape]
    n = len(base)
    ox, oy = env.real('ox', -8, 8), env.real('oy', -8, 8)
    coords = []
    for i, p in enumerate(base):
        x, y = ox + p[0], oy + p[1]
        if i in free: x = x + env.real('fx%d' % i, -.2, .2); y = y + env.real('fy%d' % i, -.2, .2)
        coords.append((x, y))
    order = list(range(n))
    if perm == 'rev': order = order[::-1]
    elif perm == 'mix': order = [(i * 5 + 3) % n if n % 5 else (i * 3 + 1) % n for i in range(n)]
    if sorted(order) != list(range(n)): order = list(range(n))[1:] + [0]
    pos = {o: i for i, o in enumerate(order)}
    coords = [coords[o] for o in order]
    faces = [[pos[k] for k in f] for f in faces]
    if perm != 'id':
        faces = faces[::-1]
        r = env.choice('rot', [0, 1, 2, 3])
        faces = [f[r % len(f):] + f[:r % len(f)] for f in faces]
    if file is None:
        x = np.array([list(c) for c in coords], dtype=object if any_sym(coords) else float)
        mesh = m.Mesh2D(x=x, connectivity=[list(f) for f in faces])
    else:
        names = [(1, 7, 'side'), (2, 8, 'water')] if file.get('names') else []
        mesh = gmsh(m, coords, faces, file['tags'], names, file.get('lines'))
        r = mesh.dcel.subregions
        env.prove('named regions', list(zip(r['dim'], r['tags'], r['names'])) == names and r['n'] == (len(names) or None))
        env.prove('face types', list(mesh.dcel.faces['type']) == ['triangle' if len(f) == 3 else 'quadrilateral' for f in faces])
        t = mesh.dcel.faces['tags']
        env.prove('face tags', [list(t[k]) if k in t else None for k in ('phys', 'geom', 'partition')] == [[7 + i] * len(faces) if i < file['tags'] else None for i in range(3)])
    chk_dcel2(env, mesh, coords, faces, (), lambda e, f: e == f[::-1])
    env.prove('is_quadmesh', mesh.is_quadmesh() == all(len(f) == 4 for f in faces))

def tasks(tier):
    T = []
    N = (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 6)
    for n in N:
        for per in (False, True):
            if per and n == 1: continue
            T.append(('h_1d', dict(n=n, per=per, how='box')))
        T.append(('h_1d', dict(n=n, how='x')))
    T += [('h_1d', dict(n=3, per=p, how='dcel')) for p in (False, True)] + [('h_1d', dict(n=2, how='default'))]
    for nx in (1, 2, 3):
        for ny in (1, 2, 3):
            for per in ((), (0,), (1,), (0, 1)):
                if tier == 'quick' and per and nx * ny > 6: continue
                T.append(('h_2d', dict(nx=nx, ny=ny, per=per)))
    T += [('h_2d', dict(nx=2, ny=1, how='default')), ('h_2d', dict(nx=2, ny=2, how='dcel')), ('h_2d', dict(nx=1, ny=2, how='mesh2d')), ('h_2d', dict(nx=2, ny=2, per=(0, 1), how='dcel'))]
    for s in SHAPES:
        for p in ('id', 'rev', 'mix'):
            T.append(('h_conn', dict(shape=s, perm=p)))
    for sh in ('quads', 'tri', 'L3', 'ring'):
        for f in (dict(tags=2, names=True, lines=True), dict(tags=0), dict(tags=3, names=True), dict(tags=1, lines=True)):
            T.append(('h_conn', dict(shape=sh, perm='rev' if f['tags'] else 'id', file=f)))
    T += [('h_conn', dict(shape='tri', perm='mix', free=(4,), file=dict(tags=2, lines=True)))]
    T += [('h_conn', dict(shape='mixed', perm='id', free=(4,))), ('h_conn', dict(shape='quads', perm='rev', free=(4,)))]
    return T
