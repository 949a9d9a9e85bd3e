"""F04: region dof queries return exactly the dofs located in the region; basis numbering is a bijection."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, And, Or, Not, Iff
from .meshu import Pat, node, grow, build, qmesh, imesh
from .genu import GPat, gmesh
from .M04 import mark_sub, leaf_bit
from .F02 import fe, nodes_of
MODS = ['mesh', 'fem']
BOUNDS = ('interval meshes of 1-3 roots and quadrilateral meshes of up to 2x2 roots, every 2:1 balanced history of up to 2 splits, periodic and not, elements DQ0, Q1-Q3, '
          'DQ1, DQ2; whole mesh and every rooted sub-mesh; all entities, or those marked, for every pair of marked vertices/edges/cells; interior or not, boundary or not; general quadrilaterals around a vertex, in an L or a ring, different starting corners; meshes of two cells also after coarsening')
OUTSIDE = 'triangles, other general quadrilaterals, deeper histories; marked regions of more than two entities (the query is a union over entities)'
TASK_S = 200

def side_pos(pat, c, k, p, interior):
    if isinstance(pat, GPat):
        t = pat.param(c, k, p); return t is not None and (0 < t < 1 if interior else 0 <= t <= 1)
    ax, line, lo, hi = pat.side(c, k)
    if p[1 - ax] != line: return False
    return lo < p[ax] < hi if interior else lo <= p[ax] <= hi

def boundary_side(pat, c, k):
    if isinstance(pat, GPat): return pat.on_bnd(c, k)
    ax, line, lo, hi = pat.side(c, k)
    n = (pat.nx, pat.ny)[1 - ax]
    return (1 - ax) not in pat.per and line in (0, n)

def setup(env, mesh, pat, el, dim, sub):
    m = M('fem'); e = fe(dim, el)
    mk = mark_sub(env, mesh, pat, 'sub') if sub else {c: True for c in pat.cells}
    kw = dict(subforest_flag='sub') if sub else {}
    cells = [c for c in pat.cells if bool(mk[c])]
    leaves = [c for c in cells if c not in pat.split_set or not bool(mk[c + (0,)])]
    dh = m.DofHandler(mesh, e); dh.distribute_dofs(**kw)
    ref = np.array(e.reference_nodes(), dtype=float).reshape(e.n_dofs(), -1)
    at = {c: list(zip([int(g) for g in dh.get_cell_dofs(node(mesh, c))], nodes_of(pat, c, ref))) for c in cells}
    return m, e, dh, kw, cells, leaves, at

def entities(mesh, pat, leaves, kind, bnd, at):
    """[(entity object, {dofs} , {interior dofs})] owned by the leaves; interior = strictly inside the entity"""
    out = {}
    def add(ent, ds, di):
        k = id(ent)
        if k not in out: out[k] = (ent, set(), set())
        out[k][1].update(ds); out[k][2].update(di)
    for c in leaves:
        N = node(mesh, c)
        if pat.dim == 1:
            (lo, hi), = pat.box(c)
            ends = [k for k, x in enumerate((lo, hi)) if not pat.per and x in (0, pat.nx)]
            if kind == 'cell':
                if bnd and not ends: continue
                add(N, [g for g, p in at[c]], [g for g, p in at[c] if lo < p[0] < hi])
            else:
                for k, v in enumerate((N.base(), N.head())):
                    if bnd and k not in ends: continue
                    d = [g for g, p in at[c] if p[0] == (lo, hi)[k]]
                    add(v, d, d)
        else:
            bs = [k for k in range(4) if boundary_side(pat, c, k)]
            if kind == 'cell':
                if bnd and not bs: continue
                add(N, [g for g, p in at[c]], [g for g, p in at[c] if (all(pat.param(c, k, p) is None for k in range(4)) if isinstance(pat, GPat) else all(lo < x < hi for x, (lo, hi) in zip(p, pat.box(c))))])
            elif kind == 'half_edge':
                for k in (bs if bnd else range(4)):
                    add(N.get_half_edge(k), [g for g, p in at[c] if side_pos(pat, c, k, p, False)], [g for g, p in at[c] if side_pos(pat, c, k, p, True)])
            else:
                cs = pat.corners(c)
                for k in (sorted({k for b in bs for k in (b, (b + 1) % 4)}) if bnd else range(4)):
                    d = [g for g, p in at[c] if p == cs[k]]
                    add(N.get_vertex(k), d, d)
    return list(out.values())

def regions(env, mesh, pat, el, dim, sub):
    m, e, dh, kw, cells, leaves, at = setup(env, mesh, pat, el, dim, sub)
    kind = env.choice('kind', ['vertex', 'cell'] + (['half_edge'] if dim == 2 else []))
    bnd = env.choice('bnd', [False, True])
    E = entities(mesh, pat, leaves, kind, bnd, at)
    every = entities(mesh, pat, leaves, kind, False, at)
    if dim == 2 and el[:2] != 'DQ' or dim == 1 or kind != 'vertex': pass
    a = env.choice('a', [None] + list(range(len(every))))
    b = env.choice('b', [None] + list(range(a))) if a is not None else None
    marked = [every[k] for k in (a, b) if k is not None]
    for x in marked: x[0].mark('reg')
    keep = {id(x[0]) for x in marked}
    # discontinuous elements own nothing on vertices and edges unless their nodes say so: same rule, by position
    for interior in (False, True):
        for flag in (None, 'reg'):
            want = set()
            for ent, d, di in E:
                if flag is None or id(ent) in keep: want |= di if interior else d
            got = dh.get_region_dofs(entity_type=kind, entity_flag=flag, interior=interior, on_boundary=bnd, **kw)
            env.prove('exactly the dofs of the region', set(map(int, got)) == want, (kind, bnd, flag, interior, sorted(got), sorted(want)))
            env.prove('each once, sorted', list(got) == sorted(set(got)), (kind, got))

def h_int(env, n=2, per=False, k=1, el='Q2', sub=False, first=()):
    mesh, pat, X = imesh(env, n, per, unit=True)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, 2)
    regions(env, mesh, pat, el, 1, sub)

def h_quad(env, nx=2, ny=1, per=(), k=1, el='Q2', sub=False, first=(), coarse=False, maxd=2):
    mesh, pat, X = qmesh(env, nx, ny, per, unit=True)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    if not mesh.is_balanced(): return
    regions(env, mesh, pat, el, 2, sub)

def h_gen(env, layout='pair', rot=None, order=None, k=0, el='Q2', sub=False, first=()):
    """general quadrilaterals"""
    mesh, pat, X = gmesh(env, layout, rot, unit=True, order=order)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, 2)
    if not mesh.is_balanced(): return
    regions(env, mesh, pat, el, 2, sub)

def h_basis(env, nx=2, ny=1, per=(), k=1, el='Q2', sub=False, first=(), dim=2):
    """restriction of the global numbering to a (sub-)mesh and back"""
    mesh, pat, X = qmesh(env, nx, ny, per) if dim == 2 else imesh(env, nx, bool(per))
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, 3)
    if dim == 2 and not mesh.is_balanced(): return
    m, e, dh, kw, cells, leaves, at = setup(env, mesh, pat, el, dim, sub)
    dh.distribute_dofs()                         # the finest mesh is numbered too
    flag = 'sub' if sub else None
    for der in ('v', 'vx') if el != 'DQ0' else ('v',):
        B = m.Basis(dh, der, subforest_flag=flag)
        want = sorted({g for c in leaves for g, p in at[c]})
        ds = [int(d) for d in B.dofs()]
        env.prove('dofs of the sub-mesh', sorted(ds) == want, (ds, want))
        env.prove('count', B.n_dofs() == len(want))
        idx = [int(i) for i in B.d2i(np.array(ds))]
        env.prove('dense indices', sorted(idx) == list(range(len(ds))), idx)
        env.prove('back', [int(d) for d in B.i2d(np.array(idx))] == ds)
        env.prove('forth', [int(i) for i in B.d2i(B.i2d(np.arange(len(ds))))] == list(range(len(ds))))
        for c in leaves: env.prove('cell dofs', [int(g) for g in B.dofs(node(mesh, c))] == [g for g, p in at[c]], c)
        for c in pat.cells:                      # cells finer than the sub-mesh see the leaf that contains them
            anc = [l for l in leaves if c[:len(l)] == l]
            if anc: env.prove('dofs seen from a finer cell', [int(g) for g in B.dofs(node(mesh, c))] == [g for g, p in at[anc[0]]], (c, anc))
    # counts and locations of everything, without naming the dofs
    env.prove('number of dofs', dh.n_dofs(**dict(subforest_flag=flag) if sub else {}) == len(want), len(want))
    allv = np.array(dh.get_dof_vertices(subforest_flag=flag) if sub else dh.get_dof_vertices(), dtype=object)
    one = dh.get_dof_vertices(want, as_array=False)
    env.prove('one location per dof', allv.shape == (len(want), dim) and len(one) == len(want), allv.shape)
    env.eq('all locations', allv, np.array([np.array(x, dtype=object).ravel() for x in one], dtype=object), len(want))
    env.eq('all locations in order', allv, np.array(dh.get_dof_vertices(want), dtype=object))
    # positions of an entity's dofs within its cell
    for c in leaves:
        N = node(mesh, c); gs = [g for g, p in at[c]]
        ents = [None, N] + ([N.base(), N.head()] if dim == 1 else list(N.get_vertices()) + list(N.get_half_edges()))
        for x in ents:
            for interior in (False, True):
                L = dh.get_cell_dofs(N, x, interior=interior, doftype='local'); G = dh.get_cell_dofs(N, x, interior=interior)
                env.prove('local positions of the same dofs', [gs[i] for i in L] == [int(g) for g in G], (c, L, G))
    env.prove('local dofs of any cell', list(dh.get_cell_dofs(None, doftype='local')) == list(range(e.n_dofs())))
    # locations, in the order asked, and as seen from a given cell
    v = np.array(dh.get_dof_vertices(ds), dtype=object)
    for g, x in zip(ds, v):
        ps = sorted({p for c in leaves for h, p in at[c] if h == g})
        ok = [And(*[a == b for a, b in zip(x, X(p))]) if env.symbolic else all(abs(float(a) - float(b)) < 1e-6 * max(1, abs(float(b))) for a, b in zip(x, X(p))) for p in ps]
        env.prove('location', Or(*ok), (g, ps))
    for c in leaves:
        for g, p in at[c]:
            if sum(1 for h, q in at[c] if h == g) > 1: continue
            x = dh.get_dof_vertices(g, cells={g: node(mesh, c)})
            env.eq('location within a cell', np.array(x, dtype=object).ravel(), list(X(p)), (g, c))

def tasks(tier):
    th = tier != 'quick'; T = []
    for el in ('DQ0', 'Q1', 'Q2', 'Q3', 'DQ1', 'DQ2'):
        for n, per in ((1, False), (2, False), (2, True), (3, False)):
            T.append(('h_int', dict(n=n, per=per, k=2 if th or n < 3 else 1, el=el)))
        T.append(('h_int', dict(n=2, k=1, el=el, sub=True, first=((0,),))))
        for nx, ny, per in ((1, 1, ()), (2, 1, ()), (2, 1, (0,)), (2, 2, (1,))):
            T.append(('h_quad', dict(nx=nx, ny=ny, per=per, k=(1 if nx * ny < 4 else 0) + (1 if th or nx * ny == 1 else 0), el=el)))
        T.append(('h_quad', dict(nx=2, ny=1, k=0, el=el, sub=True, first=((0,), (1,)))))
        for lay, rot, first in (('pair', 'any', ()), ('pair', (1, 2), ((0,),)), ('three', (2, 0, 3), ()), ('L', (1, 2, 3), ()), ('ring', (3, 1, 0, 2), ((1,),)), ('five', (0, 3, 1, 2, 1), ())):
            if lay in ('ring', 'five') and el not in ('Q2', 'DQ1') and not th: continue
            T.append(('h_gen', dict(layout=lay, rot=rot, first=first, el=el)))
        T.append(('h_gen', dict(layout='three', rot=(1, 0, 2), first=((0,),), el=el, sub=True)))
        for dim, nx, ny, per in ((1, 2, None, ()), (1, 2, None, (0,)), (2, 2, 1, ()), (2, 2, 2, ()), (2, 2, 2, (0, 1))):
            T.append(('h_basis', dict(dim=dim, nx=nx, ny=ny, per=per, k=(2 if dim == 1 or nx * ny == 2 else 1) + th, el=el)))
            T.append(('h_basis', dict(dim=dim, nx=nx, ny=ny, per=per, k=1 if dim == 1 or nx * ny == 2 or th else 0, el=el, sub=True, first=((0,), (1,)) if dim == 2 else ((0,),))))
    for el in ('Q1', 'Q2', 'DQ1'):
        T.append(('h_quad', dict(nx=2, ny=1, k=2, el=el, first=((0,), (1,)), coarse=True, maxd=1)))
        T.append(('h_quad', dict(nx=2, ny=1, per=(0,), k=1, el=el, first=((0,), (1,)), coarse=True, maxd=1)))
    T.append(('h_quad', dict(nx=2, ny=1, k=1, el='Q2', first=((0,), (1,)), coarse=True, sub=True, maxd=1)))
    return T
