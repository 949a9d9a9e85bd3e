"""A01: quadrature rules integrate polynomials exactly on reference cells, intervals, edges, rectangles."""
import numpy as np
from math import factorial
from fractions import Fraction as Fr
from .common import M, rows, quad, spoly, Poly2, any_sym
from .M02 import corners
MODS = ['mesh', 'fem', 'assembler']
BOUNDS = ('all rules the class offers (1-6 points per direction, triangle rules of 1, 3, 7, 13 points); polynomials of the full degree of exactness with arbitrary coefficients '
          '(reference accuracy: error at most 1e-13 for coefficients in [-1,1]); arbitrary intervals, edges (horizontal, vertical, oblique, either direction), rectangles starting '
          'at any corner, children of cells, parallelograms and quadrilaterals with a symbolic corner; sub-regions at arbitrary positions and scales')
OUTSIDE = ('map_rule with a list of basis functions (marked as an untested draft in the code, used nowhere: it raises for every input); '
           'mapped rules on quadrilaterals with several moving corners')
TASK_S = 120

TRI = {1: 1, 3: 2, 7: 5, 13: 7}

def tri_exps(d): return [(i, j) for i in range(d + 1) for j in range(d + 1 - i)]

def spoly_t(env, dim, n1, name='q', lo=None, hi=None, cap=None):
    d = 2 * n1 - 1 if cap is None else min(cap, 2 * n1 - 1)
    return spoly(env, name, [(i,) for i in range(d + 1)] if dim == 1 else [(i, j) for i in range(d + 1) for j in range(d + 1)], lo, hi)

def rule(n1, dim, how='shape'):
    R = M('assembler').GaussRule
    order = n1 if dim == 1 else n1 * n1
    if how == 'shape': return R(order, shape='interval' if dim == 1 else 'quadrilateral')
    return R(order, element=M('fem').QuadFE(dim, 'Q1'))

def pts(x): 
    x = np.asarray(x)
    return [(p,) for p in x] if x.ndim == 1 else [tuple(p) for p in x]

def h_ref(env, n1=2, dim=1, how='shape'):
    r = rule(n1, dim, how); x = pts(r.nodes()); w = list(r.weights())
    env.prove('counts', len(x) == len(w) == r.n_nodes() == n1 ** dim and r.dim() == dim and r.shape() == ('interval' if dim == 1 else 'quadrilateral'))
    for p, wi in zip(x, w): env.prove('inside, positive', len(p) == dim and all(0 < c < 1 for c in p) and wi > 0, (p, wi))
    for i in range(len(x)):
        for j in range(i): env.prove('distinct', max(abs(a - b) for a, b in zip(x[i], x[j])) > 1e-3)
    q = spoly_t(env, dim, n1, lo=-1, hi=1)
    env.close('exact', 10**8 * (sum(wi * q(*p) for wi, p in zip(w, x)) - q.integral([(0, 1)] * dim)), 0, 1e-5)      # error <= 1e-13

def h_tri(env, n=3):
    r = M('assembler').GaussRule(n, shape='triangle'); x = pts(r.nodes()); w = list(r.weights())
    env.prove('counts', len(x) == len(w) == r.n_nodes() == n and r.dim() == 2 and r.shape() == 'triangle')
    for p in x: env.prove('inside', p[0] > 0 and p[1] > 0 and p[0] + p[1] < 1, p)
    q = spoly(env, 'q', tri_exps(TRI[n]), -1, 1)
    ex = sum(c * Fr(factorial(a) * factorial(b), factorial(a + b + 2)) for (a, b), c in zip(q.e, q.c)) if any_sym(q.c) else \
        sum(c * factorial(a) * factorial(b) / factorial(a + b + 2) for (a, b), c in zip(q.e, q.c))
    env.close('exact', 10**8 * (sum(wi * q(*p) for wi, p in zip(w, x)) - ex), 0, 1e-4)      # error <= 1e-12

def mapped(env, r, reg, k, extra=False):
    """the mapped nodes and weights, from either of the two mapping methods"""
    if k == 'mapped':
        o = r.mapped_rule(reg, jac_p2r=True, hess_p2r=True) if extra else r.mapped_rule(reg)
        if extra:           # derivatives of the inverse map at the nodes come along
            _, mg = reg.reference_map(r.nodes(), jac_p2r=True, hess_p2r=True)
            for key in ('jac_p2r', 'hess_p2r'): env.eq(key, np.array(o[2][key], dtype=object), np.array(mg[key], dtype=object))
    else: o = r.map_rule(reg)
    xg, wg = o[0], o[1]
    dim = 2 if not isinstance(reg, M('mesh').Interval) else 1
    X = [tuple(p) if np.ndim(p) else (p,) for p in xg]
    env.prove('one weight per node', len(X) == len(wg) == r.n_nodes() and all(len(p) == dim for p in X), (len(X), np.shape(wg)))
    return X, list(wg)

def inside_box(env, X, box):
    for p in X:
        for c, (a, b) in zip(p, box):
            env.prove('node inside', (a < c) & (c < b))

def h_interval(env, n1=2, how='mapped', split=False):
    m = M('mesh'); r = rule(n1, 1)
    a = env.real('a'); w = env.pos('w'); reg = m.Interval(m.Vertex(a), m.Vertex(a + w))
    box = [(a, a + w)]
    if split:
        reg.split(); k = env.choice('child', range(2)); reg = reg.get_child(k); box = [(a + w * Fr(k, 2), a + w * Fr(k + 1, 2))] if any_sym([a]) else [(a + w * k / 2, a + w * (k + 1) / 2)]
    q = spoly_t(env, 1, n1)
    X, W = mapped(env, r, reg, how, r.n_nodes() <= 4)
    inside_box(env, X, box)
    for wi in W: env.prove('positive', wi > 0)
    env.eq('exact', sum(wi * q(*p) for wi, p in zip(W, X)), q.integral(box))

def h_edge(env, n1=2, how='mapped', kind='h', sg=1):
    m = M('mesh'); r = rule(n1, 1)
    x, y = env.real('x'), env.real('y'); L = env.pos('L')
    d = {'h': (1, 0), 'v': (0, 1), 'o': (3, 4), 'p': (-4, 3)}[kind]        # lengths 1 or 5
    A = (x, y); B = (x + sg * d[0] * L, y + sg * d[1] * L)
    e = m.HalfEdge(m.Vertex(A), m.Vertex(B))
    ln = L * (1 if kind in 'hv' else 5)
    deg = 2 * n1 - 1
    if deg > 7: deg = 7
    q = spoly(env, 'q', [(i, j) for i in range(deg + 1) for j in range(deg + 1 - i)] if kind in 'op' and deg <= 5 else [(i, 0) for i in range(deg + 1)] + [(0, j) for j in range(1, deg + 1)])
    X, W = mapped(env, r, e, how, r.n_nodes() <= 4)
    # exact line integral of x^a y^b = L int (x+t dx)^a (y+t dy)^b dt, by expansion in t
    def line(q):
        tot = 0
        for (a, b), c in zip(q.e, q.c):
            co = [1]
            for p, dd, k in ((A[0], B[0] - A[0], a), (A[1], B[1] - A[1], b)):
                for _ in range(k):
                    new = [0] * (len(co) + 1)
                    for i, v in enumerate(co): new[i] = new[i] + v * p; new[i + 1] = new[i + 1] + v * dd
                    co = new
            tot = tot + c * sum(v * Fr(1, i + 1) if any_sym([L]) else v / (i + 1) for i, v in enumerate(co))
        return tot * ln
    env.eq('exact', sum(wi * q(*p) for wi, p in zip(W, X)), line(q))
    for wi in W: env.prove('positive', wi > 0)

def h_edge_free(env, n1=2, how='mapped'):
    """any direction: the weights sum to a length s with s >= 0, s^2 = dx^2 + dy^2"""
    m = M('mesh'); r = rule(n1, 1)
    x, y, dx, dy = (env.real(k) for k in ('x', 'y', 'dx', 'dy'))
    env.assume((dx * dx + dy * dy) >= 1)
    e = m.HalfEdge(m.Vertex((x, y)), m.Vertex((x + dx, y + dy)))
    X, W = mapped(env, r, e, how, r.n_nodes() <= 4)
    s = W[0] / float(r.weights()[0])
    env.eq('length', s * s, dx * dx + dy * dy)
    env.prove('positive', s > 0)
    for p, t, wi, w0 in zip(X, r.nodes(), W, r.weights()):
        env.eq('nodes on the edge', p, (x + float(t) * dx, y + float(t) * dy)); env.eq('weights in proportion', wi, s * float(w0))

def h_rect(env, n1=2, how='mapped', start=0, split=False):
    m = M('mesh'); r = rule(n1, 2)
    c = corners(env, 'rect', start); cell = quad(m, c)
    if split:
        cell.split(); cell = cell.get_child(env.choice('child', range(4)))
        c = [v.coordinates() for v in cell.get_vertices()]
    i0 = (4 - start) % 4 if not split else 0
    # lower-left and upper-right corners by the two coordinates that differ on opposite corners
    P = [c[(i0 + k) % 4] for k in range(4)]
    box = [(P[0][0], P[2][0]), (P[0][1], P[2][1])]
    if split and start: 
        # children of rotated rectangles: find the corner below-left of all others
        k = [k for k in range(4) if bool(c[k][0] <= c[(k + 2) % 4][0]) and bool(c[k][1] <= c[(k + 2) % 4][1])][0]
        box = [(c[k][0], c[(k + 2) % 4][0]), (c[k][1], c[(k + 2) % 4][1])]
    q = spoly_t(env, 2, n1, cap=5 if n1 < 4 else 3)
    if n1 > 3: q = Poly2(q.e + [(2 * n1 - 1, 0), (0, 2 * n1 - 1), (1, 2 * n1 - 1)], q.c + [env.real('h%d' % k) for k in range(3)])
    X, W = mapped(env, r, cell, how, r.n_nodes() <= 4)
    if n1 <= 3: inside_box(env, X, box)
    for wi in W: env.prove('positive', wi > 0)
    env.eq('exact', sum(wi * q(*p) for wi, p in zip(W, X)), q.integral(box))

def poly_quad(q, v):
    """exact integral of q over the polygon v by Green's theorem (x-antiderivative along the edges)"""
    tot = 0; n = len(v); fr = any_sym([c for p in v for c in p]) or any_sym(q.c)
    for i in range(n):
        A, B = v[i], v[(i + 1) % n]
        for (a, b), c in zip(q.e, q.c):
            co = [1]
            for p, dd, k in ((A[0], B[0] - A[0], a + 1), (A[1], B[1] - A[1], b)):
                for _ in range(k):
                    new = [0] * (len(co) + 1)
                    for j, w in enumerate(co): new[j] = new[j] + w * p; new[j + 1] = new[j + 1] + w * dd
                    co = new
            s = sum(w * (Fr(1, (j + 1) * (a + 1)) if fr else 1. / ((j + 1) * (a + 1))) for j, w in enumerate(co))
            tot = tot + c * s * (B[1] - A[1])
    return tot

def h_quad(env, n1=2, how='mapped', free=2, kind='quad'):
    """p o F has degree k per direction and det F' degree 1: exact for total degree k <= 2 n - 2"""
    m = M('mesh'); r = rule(n1, 2)
    if kind == 'quad':
        v = [(0., 0.), (2., 0.), (2., 1.), (0., 1.)]
        v[free] = (env.real('x', v[free][0] - .4, v[free][0] + .4), env.real('y', v[free][1] - .4, v[free][1] + .4))
    else: v = corners(env, 'para', 0, free)
    cell = quad(m, v)
    if cell.is_rectangle(): return
    deg = min(2 * n1 - 2, 4) if kind == 'quad' else min(2 * n1 - 1, 3)
    q = spoly(env, 'q', [(i, j) for i in range(deg + 1) for j in range(deg + 1 - i)])
    X, W = mapped(env, r, cell, how, r.n_nodes() <= 4)
    for wi in W: env.prove('positive', wi > 0)
    env.eq('exact', sum(wi * q(*p) for wi, p in zip(W, X)), poly_quad(q, v))

def h_scale(env, n1=2, dim=1):
    """the rule on a sub-region at a given relative position and scale"""
    r = rule(n1, dim); s = env.pos('s', hi=1); pos = [env.real('p%d' % k, 0, 1) for k in range(dim)]
    q = spoly_t(env, dim, n1, cap=5 if dim == 1 or n1 < 4 else 3)
    P = pos[0] if dim == 1 else rows([pos])
    x, w = r.scale_rule(P, s)
    X = pts(x)
    env.prove('counts', len(X) == len(w) == r.n_nodes(), (np.shape(x), np.shape(w)))
    env.eq('exact', sum(wi * q(*p) for wi, p in zip(w, X)), q.integral([(p, p + s) for p in pos]))
    t = [[env.real('t%d%d' % (i, k), 0, 1) for k in range(dim)] for i in range(2)]
    y = r.scale_rule(P, s, nodes=rows(t) if dim == 2 else rows(t)[:, 0])
    env.eq('points', np.array([c for p in pts(y) for c in p], dtype=object), [pos[k] + s * t[i][k] for i in range(2) for k in range(dim)])

def h_nodes(env, dim=1):
    """mapping given reference points"""
    m = M('mesh'); r = rule(2, dim)
    t = [[env.real('t%d%d' % (i, k), 0, 1) for k in range(dim)] for i in range(3)]
    if dim == 1:
        a = env.real('a'); w = env.pos('w'); reg = m.Interval(m.Vertex(a), m.Vertex(a + w))
        y = r.map_rule(reg, nodes=rows(t)[:, 0])
        env.eq('points', np.array(y, dtype=object).ravel(), [a + w * p[0] for p in t])
    else:
        c = corners(env, 'rect', 0); reg = quad(m, c)
        y = r.map_rule(reg, nodes=rows(t))
        env.eq('points', np.array([[v for v in p] for p in y], dtype=object), [[c[0][0] + (c[2][0] - c[0][0]) * p[0], c[0][1] + (c[2][1] - c[0][1]) * p[1]] for p in t])

def tasks(tier):
    th = tier != 'quick'; T = []
    for n1 in range(1, 7):
        for dim in (1, 2):
            for how in ('shape', 'element'): T.append(('h_ref', dict(n1=n1, dim=dim, how=how)))
            T.append(('h_scale', dict(n1=n1, dim=dim)))
        for how in ('mapped', 'map'):
            for sp in (False, True): T.append(('h_interval', dict(n1=n1, how=how, split=sp)))
            for kind in 'hvop':
                for sg in (1, -1): T.append(('h_edge', dict(n1=n1, how=how, kind=kind, sg=sg)))
            T.append(('h_edge_free', dict(n1=n1, how=how)))
            for st in range(4):
                T.append(('h_rect', dict(n1=n1, how=how, start=st)))
                if n1 == 2: T.append(('h_rect', dict(n1=n1, how=how, start=st, split=True)))
            for f in range(4):
                if n1 > 1 or th: T.append(('h_quad', dict(n1=n1, how=how, free=f)))
            for s in (1, -1): T.append(('h_quad', dict(n1=n1, how=how, free=s, kind='para')))
    T += [('h_tri', dict(n=n)) for n in TRI]
    T += [('h_nodes', dict(dim=d)) for d in (1, 2)]
    return T
