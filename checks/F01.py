"""F01: shape functions are nodal, sum to one, reproduce polynomials, and differentiate truly (also on mapped cells)."""
import numpy as np
from .common import M, rows, col, quad, spoly, poly_deg, any_sym
from .M02 import corners
MODS = ['mesh', 'fem']
BOUNDS = ('all elements DQ0, Q1-Q3, DQ1-DQ3 in one and two dimensions, 1-3 symbolic points in the reference cell, polynomials of the element\'s space '
          'with arbitrary coefficients; cells: reference, arbitrary intervals, rectangles (starting at any corner), parallelograms and general quadrilaterals '
          'with a symbolic corner; basis functions of meshes and sub-meshes (refined once) at reference and physical points of arbitrary intervals and boxes; single and listed derivatives, all and selected local dofs')
OUTSIDE = 'triangular elements (constructor does not run), points outside the reference cell (rejected by the library)'
TASK_S = 120

EL = ['DQ0', 'Q1', 'DQ1', 'Q2', 'DQ2', 'Q3', 'DQ3']

def fe(dim, el): return M('fem').QuadFE(dim, el)

def refpts(env, dim, n):
    return [tuple(env.real('t%d%d' % (i, k), 0, 1) for k in range(dim)) for i in range(n)]

def ders(dim):
    return [(0,), (1, 0), (2, 0, 0)] if dim == 1 else [(0,), (1, 0), (1, 1), (2, 0, 0), (2, 0, 1), (2, 1, 0), (2, 1, 1)]

STR = {(0,): 'v', (1, 0): 'ux', (1, 1): 'uy', (2, 0, 0): 'vxx', (2, 0, 1): 'vxy', (2, 1, 0): 'qyx', (2, 1, 1): 'qyy'}

def dq(q, d):
    for v in d[1:]: q = q.d(v)
    return q

def h_nodes(env, dim=2, el='Q2'):
    """unisolvence: as many distinct nodes as the space has dimensions, nodal values, counts"""
    e = fe(dim, el); k = e.polynomial_degree(); n = e.n_dofs()
    env.prove('count', n == (k + 1) ** dim)
    if dim == 2: env.prove('split count', 4 * e.n_dofs('vertex') + 4 * e.n_dofs('edge') + e.n_dofs('cell') == n)
    else: env.prove('split count', 2 * e.n_dofs('vertex') + e.n_dofs('edge') + e.n_dofs('cell') == n)
    x = np.array(e.reference_nodes(), dtype=float)
    env.prove('node array', x.shape == (n, dim))
    grid = [i / k for i in range(k + 1)] if k else [.5]
    for i in range(n):
        env.prove('node on the lattice', all(min(abs(c - g) for g in grid) < 1e-12 for c in x[i]), (i, x[i]))
        for j in range(i): env.prove('distinct', max(abs(x[i] - x[j])) > 1e-6, (i, j))
    for i in range(n):
        env.eq('nodal', np.array(e.phi(i, x), dtype=object).ravel(), [1. if i == j else 0. for j in range(n)])
    corn = [(0.,), (1.,)] if dim == 1 else [(0., 0.), (1., 0.), (1., 1.), (0., 1.)]
    if k: env.eq('corners first', x[:2 * dim], np.array(corn))

def repro(env, e, dim, S, nodes, pts, q, der, loc):
    """S (points x local dofs) applied to nodal values of q gives the derivative of q"""
    S = np.array(S, dtype=object) if any_sym(S) else np.array(S)
    env.prove('shape of result', S.shape == (len(pts), len(loc)), (S.shape, der))
    out = []
    for i in range(len(pts)):
        out.append(sum(S[i, j] * q(*[float(c) for c in nodes[l]]) for j, l in enumerate(loc)))
    return out

def h_ref(env, dim=2, el='Q1', n=2, single=False, by='shape'):
    e = fe(dim, el); nd = e.n_dofs(); nodes = np.array(e.reference_nodes(), dtype=float)
    pts = refpts(env, dim, n); X = rows(pts)
    q = spoly(env, 'q', poly_deg(dim, e.polynomial_degree()))
    D = ders(dim)
    if by == 'shape':
        R = [e.shape(X, derivatives=d) for d in D] if single else e.shape(X, derivatives=D)
        env.prove('one result per derivative', len(R) == len(D))
    else:
        R = []
        for d in D:
            c = [e.phi(i, X) if len(d) == 1 else e.dphi(i, X, var=d[1]) if len(d) == 2 else e.d2phi(i, X, d[1:]) for i in range(nd)]
            R.append(np.array([np.array(ci, dtype=object).ravel() for ci in c]).T)
    for d, S in zip(D, R):
        out = repro(env, e, dim, S, nodes, pts, q, d, range(nd))
        env.eq('reproduces %s' % (d,), out, [dq(q, d)(*p) for p in pts])
        env.eq('sum %s' % (d,), [sum(S[i, j] for j in range(nd)) for i in range(n)], [1. if len(d) == 1 else 0.] * n)

def h_loc(env, dim=2, el='Q2'):
    """selected local dofs are the corresponding columns"""
    e = fe(dim, el); nd = e.n_dofs(); X = rows(refpts(env, dim, 2))
    full = e.shape(X, derivatives=ders(dim))
    for loc in ([nd - 1, 0], [0], list(range(nd))[::-1]):
        part = e.shape(X, derivatives=ders(dim), local_dofs=loc)
        for F, P in zip(full, part): env.eq('columns', P, np.array(F)[:, loc])

def chk_cell(env, e, cell, ref, verts, loc=None):
    dim = 2; nodes = np.array(e.reference_nodes(), dtype=float)
    X = rows(ref)
    q = spoly(env, 'q', poly_deg(2, e.polynomial_degree()))
    x, mg = cell.reference_map(X, jac_r2p=True, jac_p2r=True, hess_p2r=True)
    D = ders(2)
    R = e.shape(X, cell=cell, derivatives=D, jac_p2r=mg['jac_p2r'], hess_p2r=mg['hess_p2r'])
    v = {d: repro(env, e, dim, S, nodes, ref, q, d, range(e.n_dofs())) for d, S in zip(D, R)}
    for i, (s, t) in enumerate(ref):
        J = [[None, None], [None, None]]; C = [None, None]
        for k in range(2):
            c = [p[k] for p in verts]
            J[k][0] = (c[1] - c[0]) * (1 - t) + (c[2] - c[3]) * t
            J[k][1] = (c[3] - c[0]) * (1 - s) + (c[2] - c[1]) * s
            C[k] = c[0] - c[1] + c[2] - c[3]
        env.eq('value', v[(0,)][i], q(s, t))
        g = [v[(1, 0)][i], v[(1, 1)][i]]
        for a in range(2): env.eq('gradient', sum(g[k] * J[k][a] for k in range(2)), q.d(a)(s, t))
        H = [[v[(2, 0, 0)][i], v[(2, 0, 1)][i]], [v[(2, 1, 0)][i], v[(2, 1, 1)][i]]]
        for a, b in ((0, 0), (0, 1), (1, 1)):
            w = sum(H[k][l] * J[k][a] * J[l][b] for k in range(2) for l in range(2))
            if a != b: w = w + sum(g[k] * C[k] for k in range(2))
            env.eq('second derivative', w, q.d(a).d(b)(s, t))
        env.eq('mixed', H[0][1], H[1][0])

def h_rect(env, el='Q2', start=0, n=2):
    m = M('mesh')
    c = corners(env, 'rect', start); cell = quad(m, c)
    chk_cell(env, fe(2, el), cell, refpts(env, 2, n), c)

def h_para(env, el='Q2', sg=1):
    m = M('mesh')
    c = corners(env, 'para', 0, sg); cell = quad(m, c)
    if cell.is_rectangle(): return
    chk_cell(env, fe(2, el), cell, refpts(env, 2, 1), c)

def h_quad(env, el='Q1', free=(2,), n=1, one=False):
    m = M('mesh'); v = []
    for i, p in enumerate([(0, 0), (2, 0), (2, 1), (0, 1)]):
        v.append((env.real('x%d' % i, p[0] - .4, p[0] + .4), float(p[1]) if one else env.real('y%d' % i, p[1] - .4, p[1] + .4)) if i in free else (float(p[0]), float(p[1])))
    cell = quad(m, v)
    if cell.is_rectangle(): return
    chk_cell(env, fe(2, el), cell, refpts(env, 2, n), v)

def h_itv(env, el='Q2', n=2):
    m = M('mesh'); e = fe(1, el); nodes = np.array(e.reference_nodes(), dtype=float)
    a = env.real('a'); w = env.pos('w'); itv = m.Interval(m.Vertex(a), m.Vertex(a + w))
    pts = refpts(env, 1, n); X = rows(pts)
    x, mg = itv.reference_map(X, jac_p2r=True, hess_p2r=True)
    q = spoly(env, 'q', poly_deg(1, e.polynomial_degree()))          # polynomial in physical coordinates
    D = ders(1)
    R = e.shape(X, cell=itv, derivatives=D, jac_p2r=mg['jac_p2r'], hess_p2r=mg['hess_p2r'])
    for d, S in zip(D, R):
        env.prove('shape of result', np.shape(S) == (n, e.n_dofs()))
        out = [sum(S[i, j] * q(a + w * float(nodes[j, 0])) for j in range(e.n_dofs())) for i in range(n)]
        env.eq('reproduces %s' % (d,), out, [dq(q, d)(a + w * p[0]) for p in pts])

def h_mesh(env, el='Q1'):
    """cells obtained by splitting, with the same conventions"""
    m = M('mesh')
    c = corners(env, 'rect', 0); cell = quad(m, c); cell.split()
    k = env.choice('child', range(4)); ch = cell.get_child(k)
    chk_cell(env, fe(2, el), ch, refpts(env, 2, 1), [v.coordinates() for v in ch.get_vertices()])

def h_basis(env, dim=2, nx=1, el='Q2', sub=False):
    """basis functions at reference and physical points of a cell"""
    m = M('mesh'); fm = M('fem'); n = 2
    a = env.real('a', -8, 8); w = env.pos('w', .1, 8)
    if dim == 1: mesh = m.Mesh1D(box=[a, a + w], resolution=(nx,)); org, wid = (a,), (w / nx,)
    else:
        b = env.real('b', -8, 8); h = env.pos('h', .1, 8)
        mesh = m.QuadMesh(box=[a, a + w, b, b + h], resolution=(nx, nx)); org, wid = (a, b), (w / nx, h / nx)
    top = mesh.cells.get_child(0)
    if sub: mesh.cells.record('c'); mesh.cells.refine(new_label='f')
    e = fe(dim, el); dh = fm.DofHandler(mesh, e); dh.distribute_dofs(); nodes = np.array(e.reference_nodes(), dtype=float)
    flag = env.choice('flag', ('c', 'f')) if sub else None
    cell = top.get_child(env.choice('child', range(top.n_children()))) if sub and (flag == 'f' or env.is_true(env.bit('deep'))) else top
    supp = cell
    if sub and flag == 'c': supp = top           # functions of the coarse mesh, asked for on a fine cell
    if supp is not top:
        k = cell.get_node_position(); o = (k,) if dim == 1 else ((0, 0), (1, 0), (1, 1), (0, 1))[k]
        wid = tuple(x / 2 for x in wid); org = tuple(x + y * z for x, y, z in zip(org, wid, o))
    q = spoly(env, 'q', poly_deg(dim, e.polynomial_degree()))
    for d in ders(dim):
        B = fm.Basis(dh, STR[d], flag) if flag else fm.Basis(dh, d)        # both ways to say which derivative
        pts = refpts(env, dim, n) if d == (0,) else pts
        phys = [tuple(o + wk * t for o, wk, t in zip(org, wid, p)) for p in pts]
        val = [sum_q(q, d, wid, *p) for p in pts]
        for ref in ((True, False) if supp is cell else (False,)):
            S = B.eval(rows(pts if ref else phys), cell, 'reference' if ref else 'physical')
            out = repro(env, e, dim, S, nodes, pts, q, d, range(e.n_dofs()))
            env.close('basis %s %s' % (d, ref), out, val, 1e-9)

def sum_q(q, d, wid, *p):
    r = dq(q, d)(*p)
    for v in d[1:]: r = r / wid[v]
    return r

def tasks(tier):
    th = tier != 'quick'; T = []
    for el in EL:
        for dim in (1, 2):
            T.append(('h_nodes', dict(dim=dim, el=el)))
            T.append(('h_ref', dict(dim=dim, el=el, n=3 if dim == 1 else 2)))
            T.append(('h_ref', dict(dim=dim, el=el, n=1, single=True)))
            T.append(('h_ref', dict(dim=dim, el=el, n=2, by='phi')))
            T.append(('h_loc', dict(dim=dim, el=el)))
        T.append(('h_itv', dict(el=el, n=3)))
    for el in ('DQ0', 'Q1', 'Q2', 'Q3', 'DQ1', 'DQ2', 'DQ3'):
        for st in range(4): T.append(('h_rect', dict(el=el, start=st, n=2 if el[-1] < '3' else 1)))
        T.append(('h_mesh', dict(el=el)))
        T += [('h_para', dict(el=el, sg=s)) for s in (1, -1)]
    for el in ('DQ0', 'Q1', 'Q2'):
        T += [('h_quad', dict(el=el, free=(i,))) for i in range(4)]
        if th: T += [('h_quad', dict(el=el, free=(i, j))) for i in range(4) for j in range(i)]
    T += [('h_quad', dict(el='Q3', free=(i,), one=True)) for i in range(4)]
    if th: T += [('h_quad', dict(el='Q3', free=(i,))) for i in range(4)]
    for el in EL if th else ('DQ0', 'Q1', 'Q2', 'DQ1'):
        for dim in (1, 2):
            T.append(('h_basis', dict(dim=dim, nx=2 if dim == 1 else 1, el=el)))
            T.append(('h_basis', dict(dim=dim, nx=2 if dim == 1 else 1, el=el, sub=True)))
    T.append(('h_quad', dict(el='Q1', free=(2,), n=2)))
    return T
