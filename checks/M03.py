"""M03: reference maps invert each other and report the true Jacobian and Hessian."""
import numpy as np
from .common import M, rows, col, quad, any_sym
MODS = ['mesh']
BOUNDS = ('intervals and edges with arbitrary real end points; rectangles with arbitrary real corner and positive sides, starting at any corner; '
          'parallelograms with a positively oriented symbolic edge vector; general quadrilaterals with one free corner (two in the thorough tier) '
          'for the forward map and its derivatives; inverse map of parallelograms, of trapezoids (any point) and of all translated, scaled and sheared images of four general shapes (16 points) within 1e-9; two symbolic points per call')
OUTSIDE = 'inverse map of general quadrilaterals (Newton iteration) other than the families above, triangles'

def _pts(env, n, dim, name):
    return [tuple(env.real('%s%d%s' % (name, i, 'xy'[k])) for k in range(dim)) for i in range(n)]

def h_interval(env, nx=2):
    m = M('mesh')
    a = env.real('a'); w = env.pos('w')
    itv = m.Interval(m.Vertex(a), m.Vertex(a + w))
    t = [env.real('t%d' % i) for i in range(nx)]
    x, mg = itv.reference_map(col(t), mapsto='physical', jac_r2p=True, jac_p2r=True, hess_r2p=True, hess_p2r=True)
    env.eq('image', np.array(x).ravel(), [a + w * ti for ti in t])
    env.eq('ends', np.array(itv.reference_map(np.array([[0.], [1.]]))).ravel(), [a, a + w])
    env.prove('count', len(mg['jac_r2p']) == nx and len(mg['jac_p2r']) == nx)
    for i in range(nx):
        env.eq('jac_r2p', mg['jac_r2p'][i], w); env.eq('jac_p2r', mg['jac_p2r'][i] * w, 1)
        env.eq('hess', mg['hess_r2p'][i], 0); env.eq('hess', mg['hess_p2r'][i], 0)
    back = itv.reference_map(x, mapsto='reference')
    env.eq('roundtrip', np.array(back).ravel(), t)
    p = [env.real('p%d' % i) for i in range(nx)]
    r, mg = itv.reference_map(col(p), mapsto='reference', jac_r2p=True, jac_p2r=True, hess_r2p=True, hess_p2r=True)
    for i in range(nx):
        env.eq('jac_p2r@ref', mg['jac_p2r'][i] * w, 1); env.eq('jac_r2p@ref', mg['jac_r2p'][i], w)
    env.eq('roundtrip-p', np.array(itv.reference_map(r, mapsto='physical')).ravel(), p)
    env.eq('one-by-one', [np.array(itv.reference_map(col([pi]), mapsto='reference')).ravel()[0] for pi in p], np.array(r).ravel())

def h_edge(env, kind='general', nx=2):
    m = M('mesh')
    a, b = env.real('a', -8, 8), env.real('b', -8, 8)
    dx, dy = env.real('dx', -8, 8), env.real('dy', -8, 8)
    if kind == 'h': env.assume((dx > .01) | (dx < -.01)); dy = 0 * dy
    elif kind == 'v': env.assume((dy > .01) | (dy < -.01)); dx = 0 * dx
    else: env.assume((dx > .01) | (dx < -.01)); env.assume((dy > .01) | (dy < -.01))
    he = m.HalfEdge(m.Vertex((a, b)), m.Vertex((a + dx, b + dy)))
    t = [env.real('t%d' % i, 0, 1) for i in range(nx)]
    ta = np.array(t, dtype=object if any_sym(t) else float)
    x, mg = he.reference_map(ta, mapsto='physical', jac_r2p=True, jac_p2r=True, hess_r2p=True, hess_p2r=True)
    env.prove('count', len(x) == nx and all(len(mg[k]) == nx for k in ('jac_r2p', 'jac_p2r', 'hess_r2p', 'hess_p2r')))
    for i in range(nx):
        env.eq('image', list(x[i]), [a + dx * t[i], b + dy * t[i]])
        env.eq('jac_r2p', np.array(mg['jac_r2p'][i]).ravel(), [dx, dy])
        q = np.array(mg['jac_p2r'][i]).ravel()
        env.eq('jac_p2r', q[0] * dx + q[1] * dy, 1)      # along the edge
        env.eq('hess', np.array(mg['hess_r2p'][i], dtype=object).ravel(), [0] * 4); env.eq('hess', np.array(mg['hess_p2r'][i], dtype=object).ravel(), [0] * 4)
    back = he.reference_map(rows(x), mapsto='reference')
    env.eq('roundtrip', np.array(back, dtype=object).ravel(), t)
    back, mg = he.reference_map(rows(x), mapsto='reference', jac_r2p=True, jac_p2r=True)
    env.eq('roundtrip', np.array(back, dtype=object).ravel(), t)
    for i in range(nx):
        q = np.array(mg['jac_p2r'][i]).ravel()
        env.eq('jac_r2p@ref', np.array(mg['jac_r2p'][i]).ravel(), [dx, dy]); env.eq('jac_p2r@ref', q[0] * dx + q[1] * dy, 1)

def h_normal(env, kind='edge', start=0):
    """the unit normal of an edge: of length one, orthogonal to it, to its right, i.e. out of its cell"""
    m = M('mesh')
    if kind == 'edge':
        a, b = env.real('a', -8, 8), env.real('b', -8, 8); dx, dy = env.real('dx', -8, 8), env.real('dy', -8, 8)
        env.assume((dx > .01) | (dx < -.01) | (dy > .01) | (dy < -.01))
        E = [(m.HalfEdge(m.Vertex((a, b)), m.Vertex((a + dx, b + dy))), dx, dy, None)]
    else:
        a, b = env.real('a', -8, 8), env.real('b', -8, 8); w, h = env.pos('w', .1, 8), env.pos('h', .1, 8); s = env.real('s', -4, 4)
        c = [(a, b), (a + w, b), (a + w + s, b + h), (a + s, b + h)]; c = c[start:] + c[:start]
        cell = quad(m, c)
        mid = (a + (w + s) / 2, b + h / 2)
        E = []
        for he in cell.get_half_edges():
            p, q = he.base().coordinates(), he.head().coordinates()
            E.append((he, q[0] - p[0], q[1] - p[1], (mid[0] - p[0], mid[1] - p[1])))
    for he, dx, dy, into in E:
        n = he.unit_normal()
        env.close('length one', [n[0] * n[0] + n[1] * n[1]], [1.], 1e-9)
        env.close('orthogonal', [n[0] * dx + n[1] * dy], [0.], 1e-9)
        env.prove('to the right', n[0] * dy - n[1] * dx > 0)
        if into: env.prove('out of the cell', n[0] * into[0] + n[1] * into[1] < 0)

def _rect(env, start):
    a, b = env.real('a'), env.real('b'); w, h = env.pos('w'), env.pos('h')
    env.assume(w > 0.001); env.assume(h > 0.001)
    c = [(a, b), (a + w, b), (a + w, b + h), (a, b + h)]
    return a, b, w, h, c[start:] + c[:start]

def _check_jac(env, cell, pts, ref, verts):
    """derivatives of the bilinear map through verts, at reference points ref"""
    n = len(pts)
    x, mg = cell.reference_map(rows(pts), mapsto='physical', jac_r2p=True, jac_p2r=True, hess_r2p=True, hess_p2r=True)
    _derivs(env, mg, verts, ref, '')
    return x

def _derivs(env, mg, verts, ref, tag, tol=0):
    eq = env.eq if not tol else lambda l, x, y: env.close(l, x, y, tol)
    for i, (s, t) in enumerate(ref):
        Jm = [[None, None], [None, None]]; D = [None, None]
        for k in range(2):
            v = [p[k] for p in verts]
            Jm[k][0] = (v[1] - v[0]) * (1 - t) + (v[2] - v[3]) * t
            Jm[k][1] = (v[3] - v[0]) * (1 - s) + (v[2] - v[1]) * s
            D[k] = v[0] - v[1] + v[2] - v[3]
        if 'jac_r2p' in mg: eq('jac_r2p' + tag, mg['jac_r2p'][i], Jm)
        if 'jac_p2r' in mg:
            P = np.array(mg['jac_p2r'][i])
            eq('jac_p2r' + tag, P.dot(np.array(Jm)), np.array([[1, 0], [0, 1]]))
        if 'hess_r2p' in mg:
            H = np.array(mg['hess_r2p'][i])
            for k in range(2):
                eq('hess_r2p' + tag, H[:, :, k], [[0, D[k]], [D[k], 0]])
        if 'hess_p2r' in mg:
            H = np.array(mg['hess_p2r'][i])
            # differentiate  r(x(s,t)) = (s,t) twice:  sum_ab H[a,b,k] J[a,i] J[b,j] + sum_m P[k,m] d2 x_m/di dj = 0
            for k in range(2):
                for (p, q) in ((0, 0), (0, 1), (1, 1)):
                    e = 0
                    for a_ in range(2):
                        for b_ in range(2):
                            e = e + H[a_, b_, k] * Jm[a_][p] * Jm[b_][q]
                    if p != q: e = e + sum(P[k, mm] * D[mm] for mm in range(2))
                    eq('hess_p2r' + tag, e, 0)
                eq('hess_p2r sym' + tag, H[0, 1, k], H[1, 0, k])

def h_rect(env, start=0, nx=2):
    m = M('mesh')
    a, b, w, h, c = _rect(env, start)
    cell = quad(m, c)
    env.prove('is rectangle', cell.is_rectangle())
    ref = _pts(env, nx, 2, 't')
    x = _check_jac(env, cell, ref, ref, c)
    corner = cell.reference_map(np.array([[0., 0.], [1., 0.], [1., 1.], [0., 1.]]))
    env.eq('corners', np.array(corner), rows(c))
    back, mg = cell.reference_map(np.array(x), mapsto='reference', jac_r2p=True, jac_p2r=True, hess_r2p=True, hess_p2r=True)
    env.eq('roundtrip', back, rows(ref))
    _derivs(env, mg, c, ref, '@ref')
    p = _pts(env, nx, 2, 'p')
    r = cell.reference_map(rows(p), mapsto='reference')
    env.eq('roundtrip-p', cell.reference_map(np.array(r), mapsto='physical'), rows(p))
    for i in range(nx):
        env.eq('one-by-one', cell.reference_map(rows([p[i]]), mapsto='reference')[0], r[i])

def h_child(env, depth=1, nx=1):
    """cells obtained by splitting have the same guarantees"""
    m = M('mesh')
    a, b, w, h, c = _rect(env, 0)
    cell = quad(m, c)
    for d in range(depth):
        k = env.choice('child%d' % d, range(4))
        cell.split(); cell = cell.get_child(k)
    v = [q.coordinates() for q in cell.get_vertices()]
    ref = _pts(env, nx, 2, 't')
    x = _check_jac(env, cell, ref, ref, v)
    back = cell.reference_map(np.array(x), mapsto='reference')
    env.eq('roundtrip', back, rows(ref))

def h_quad_forward(env, free=(2,), nx=1):
    m = M('mesh')
    base = [(0, 0), (2, 0), (2, 1), (0, 1)]
    v = []
    for i, p in enumerate(base):
        if i in free: v.append((env.real('x%d' % i, p[0] - .4, p[0] + .4), env.real('y%d' % i, p[1] - .4, p[1] + .4)))
        else: v.append((float(p[0]), float(p[1])))
    ref = _pts(env, nx, 2, 't')
    for s, t in ref:
        env.assume(s >= 0); env.assume(s <= 1); env.assume(t >= 0); env.assume(t <= 1)
    cell = quad(m, v)
    if cell.is_rectangle(): return      # tolerance band: within 1e-12 of a rectangle
    x = _check_jac(env, cell, ref, ref, v)
    for i, (s, t) in enumerate(ref):
        for k in range(2):
            q = [p[k] for p in v]
            env.eq('image', x[i][k], q[0] * (1 - s) * (1 - t) + q[1] * s * (1 - t) + q[2] * s * t + q[3] * (1 - s) * t)

def h_parallelogram(env, shear='x'):
    """inverse map of a parallelogram (Newton converges in one step)"""
    m = M('mesh')
    a, b = env.real('a', -4, 4), env.real('b', -4, 4)
    c = env.real('c', .1, 2)
    if shear == 'x': e, f = (2., 0.), (c, 1.)
    elif shear == 'y': e, f = (1., c), (0., 2.)
    else: e, f = (c, 1.), (-1., c)
    v = [(a, b), (a + e[0], b + e[1]), (a + e[0] + f[0], b + e[1] + f[1]), (a + f[0], b + f[1])]
    cell = quad(m, v)
    s, t = env.real('s', 0, 1), env.real('t', 0, 1)
    p = (a + e[0] * s + f[0] * t, b + e[1] * s + f[1] * t)
    r, mg = cell.reference_map(rows([p]), mapsto='reference', jac_r2p=True, jac_p2r=True, hess_r2p=True, hess_p2r=True)
    env.close('inverse', r, rows([(s, t)]), 1e-9)
    _derivs(env, mg, v, [(s, t)], '@ref', 1e-7)

def h_trapezoid(env, shape=0, start=0, free=True):
    """inverse map of a right trapezoid (Newton converges in two steps)"""
    m = M('mesh')
    a, b = (env.real('a', -4, 4), env.real('b', -4, 4)) if free else (0., 0.)
    k = .75
    v = [[(0, 0), (4, 0), (4, 2), (k, 2)], [(0, 0), (4, 0), (4 - k, 2), (0, 2)],
         [(0, 0), (4, k), (4, 2), (0, 2)], [(0, k), (4, 0), (4, 2), (0, 2)]][shape]
    v = [(a + x, b + y) for x, y in v]
    v = v[start:] + v[:start]
    cell = quad(m, v)
    s, t = env.real('s', 0, 1), env.real('t', 0, 1)
    p = tuple((1 - s) * (1 - t) * v[0][i] + s * (1 - t) * v[1][i] + s * t * v[2][i] + (1 - s) * t * v[3][i] for i in range(2))
    r, mg = cell.reference_map(rows([p]), mapsto='reference', jac_r2p=True, jac_p2r=True, hess_r2p=True, hess_p2r=True)
    env.close('inverse', r, rows([(s, t)]), 1e-9)
    _derivs(env, mg, v, [(s, t)], '@ref', 1e-7)

SHAPES = [((0, 0), (1, 0), (.5, .625), (0, 1)), ((0, 0), (3, .5), (4, 3), (-.5, 1)), ((.25, .125), (2, 0), (1.5, 2), (0, 1.75)), ((0, 0), (4, 1), (2.75, 2.75), (1, 4))]
GRID = [(s, t) for s in (0, .125, .5, 1) for t in (0, .375, .875, 1)]

def h_affine(env, shape=0, start=0, shear='no', two=False):
    """inverse map of general quadrilaterals: all translations and scalings (or shears) of given shapes, at given points"""
    m = M('mesh')
    a, b = env.real('a', -4, 4), env.real('b', -4, 4); w, h = env.real('w', .1, 10), env.real('h', .1, 10); c = 0 * a
    if shear == 'yes': c = env.real('c', -2, 2)
    q = [(a + w * x + c * y, b + h * y) for x, y in SHAPES[shape]]
    q = q[start:] + q[:start]
    cell = quad(m, q); ref = [env.choice('point', GRID)] + ([(.75, .625)] if two else [])
    if two: ref = ref[::-1] if env.choice('order', (0, 1)) else ref
    ps = [tuple((1 - s) * (1 - t) * q[0][i] + s * (1 - t) * q[1][i] + s * t * q[2][i] + (1 - s) * t * q[3][i] for i in range(2)) for s, t in ref]
    r, mg = cell.reference_map(rows(ps), mapsto='reference', jac_r2p=True)
    for i, (s, t) in enumerate(ref):
        env.close('inverse', r[i][0], s, 1e-9); env.close('inverse', r[i][1], t, 1e-9)
        J = [[(q[1][k] - q[0][k]) * (1 - t) + (q[2][k] - q[3][k]) * t, (q[3][k] - q[0][k]) * (1 - s) + (q[2][k] - q[1][k]) * s] for k in range(2)]
        for k in range(2):
            for l in range(2): env.close('jac_r2p@ref', mg['jac_r2p'][i][k][l], J[k][l], 1e-6)

def tasks(tier):
    T = [('h_interval', dict(nx=2)), ('h_edge', dict(kind='general')), ('h_edge', dict(kind='h')), ('h_edge', dict(kind='v'))]
    T += [('h_rect', dict(start=k)) for k in range(4)]
    T += [('h_normal', dict(kind='edge'))] + [('h_normal', dict(kind='cell', start=k)) for k in (range(4) if tier == 'thorough' else (0, 2))]
    T += [('h_child', dict(depth=1)), ('h_child', dict(depth=2))]
    T += [('h_quad_forward', dict(free=[i])) for i in range(4)]
    T += [('h_parallelogram', dict(shear=s)) for s in ('x', 'y', 'xy')]
    T += [('h_trapezoid', dict(shape=i, start=j)) for i in range(4) for j in range(4)]
    T += [('h_affine', dict(shape=i, start=i % 4)) for i in range(len(SHAPES))] + [('h_affine', dict(shape=0, start=1, two=True)), ('h_affine', dict(shape=3, start=2, shear='yes'))]
    if tier == 'thorough':
        T += [('h_affine', dict(shape=i, start=j, shear='yes', two=j % 2 == 1)) for i in range(len(SHAPES)) for j in range(4)]
        T += [('h_quad_forward', dict(free=[i, j])) for i in range(4) for j in range(i)]
        T += [('h_interval', dict(nx=4)), ('h_rect', dict(start=0, nx=4)), ('h_child', dict(depth=3))]
    return T
