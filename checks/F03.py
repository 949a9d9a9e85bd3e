"""F03: hanging-node constraints make finite element functions continuous."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, rows, spoly, poly_deg, any_sym
from .meshu import Pat, node, grow, build, qmesh, imesh
from .genu import GPat, gmesh, on_side
from .M04 import mark_sub, leaf_bit
from .F02 import fe, nodes_of
MODS = ['mesh', 'fem']
BOUNDS = ('quadrilateral meshes of up to 3x2 roots, every 2:1 balanced history of up to 3 splits (depth 2) and fixed deeper patterns, all periodic settings, '
          'whole mesh and every 2:1 balanced rooted sub-mesh, elements Q1-Q3 (and DQ0-DQ2, intervals: no constraints); arbitrary values at the free dofs, a symbolic point on every side; meshes of general quadrilaterals: two cells, an L, three or five cells around a vertex, a ring with a hole, cells numbered from any corner (all choices for the smaller ones), up to 2 splits and fixed deeper patterns; histories in which cells are also removed again (coarsening): up to 2 steps on top of fixed patterns')
OUTSIDE = 'meshes that are not 2:1 balanced (rejected by the library), triangles, deeper histories'
TASK_S = 200; PATH_S = 100

def local(pat, c, p):
    return [float((x - lo) / (hi - lo)) for x, (lo, hi) in zip(p, pat.box(c))]

def sub_balanced(pat, leaves):
    for a in leaves:
        for b in leaves:
            if abs(len(a) - len(b)) > 1 and any(pat.side_overlap(a, k, b) for k in range(4)): return False
    return True

def run(env, mesh, pat, X, el, sub=False, twice=False):
    m = M('fem'); e = fe(2, el); k = e.polynomial_degree()
    mk = mark_sub(env, mesh, pat, 'sub') if sub else {c: True for c in pat.cells}
    kw = dict(subforest_flag='sub') if sub else {}
    cells = [c for c in pat.cells if bool(mk[c])]
    leaves = [c for c in cells if c not in pat.split_set or not bool(mk[c + (0,)])]
    if not sub_balanced(pat, leaves): return
    dh = m.DofHandler(mesh, e); dh.distribute_dofs(**kw)
    if el != 'Q2': dh.set_hanging_nodes(**kw)
    hn = dh.get_hanging_nodes(**kw)              # computed on demand when they were not set
    gd = {c: [int(g) for g in dh.get_cell_dofs(node(mesh, c))] for c in cells}
    used = sorted({g for c in leaves for g in gd[c]})
    C = dh.constraints
    con = {int(d): ([int(s) for s in ss], list(w), a) for d, ss, w, a in zip(C['constrained_dofs'], C['supporting_dofs'], C['coefficients'], C['affine_terms'])}
    env.prove('constraint list', sorted(con) == sorted(hn) and len(C['constrained_dofs']) == len(con), (sorted(con), sorted(hn)))
    for d in con:
        if d in hn: env.prove('same constraint', list(map(int, hn[d][0])) == con[d][0] and con[d][2] == 0, d)
        env.prove('constrains dofs of the mesh', d in used and set(con[d][0]) <= set(used) and d not in con[d][0], (d, con[d]))
    ref = np.array(e.reference_nodes(), dtype=float)
    # which dofs hang: they sit on the side of a coarser leaf without being one of its nodes
    pos = {}
    for c in leaves:
        for g, p in zip(gd[c], nodes_of(pat, c, ref)): pos.setdefault(g, set()).add(p)
    hang = set()
    for c in leaves:
        for s in range(4):
            for d in leaves:
                if len(d) < len(c) and pat.side_overlap(c, s, d):
                    if isinstance(pat, GPat):
                        hang |= {g for g, p in zip(gd[c], nodes_of(pat, c, ref)) if pat.param(c, s, p) is not None and g not in gd[d]}; continue
                    ax, line, lo, hi = pat.side(c, s)
                    for g, p in zip(gd[c], nodes_of(pat, c, ref)):
                        if p[1 - ax] == line and g not in gd[d]: hang.add(g)
    env.prove('exactly the hanging dofs are constrained', set(con) == hang, (sorted(con), sorted(hang)))
    env.prove('told there are some', dh.has_hanging_nodes(**kw) == (len(hang) > 0), (len(hang), dh.has_hanging_nodes(**kw)))
    val = {}
    def v(g, seen=()):
        if g in seen: env.fail('circular constraint', (g, seen)); return 0.
        if g not in val:
            if g in con: val[g] = sum(w * v(s, seen + (g,)) for s, w in zip(con[g][0], con[g][1]))
            else: val[g] = env.real('v%d' % g)
        return val[g]
    for g in used: v(g)
    # one-sided values along every interior side
    t = env.real('t', 0, 1)
    for c in leaves:
        for s in range(4):
            for d in leaves:
                if isinstance(pat, GPat):
                    if d == c: continue
                elif d == c and len(pat.images(pat.side(c, s))) == 1: continue
                o = pat.side_overlap(c, s, d)
                if not o or (len(d), d) > (len(c), c) and len(d) >= len(c): continue
                lo, hi = map(float, o)
                q = lo + (hi - lo) * t
                out = []
                if isinstance(pat, GPat):
                    j, oc, od = pat.contact(c, s, d); both = [(c, s, oc), (d, j, od)]
                else: both = [(c, s, None), (d, (s + 2) % 4, None)]
                for cell, sd, on in both:
                    if on: p = [float(x) if isinstance(x, (int, Fr)) else x for x in on_side(sd, float(on[0]) + float(on[1] - on[0]) * t)]
                    else:
                        ax, line, l0, h0 = pat.side(cell, sd); r = (q - float(l0)) / float(h0 - l0)
                        p = [None, None]; p[ax] = r; p[1 - ax] = {0: 0., 1: 1., 2: 1., 3: 0.}[sd]
                    S = e.shape(rows([p]))
                    out.append(sum(S[0, j] * val[gd[cell][j]] for j in range(e.n_dofs())))
                env.eq('continuous across the side', out[0], out[1], (c, s, d))
    # weights reproduce the polynomials of the side
    qp = spoly(env, 'q', [x for x in poly_deg(2, k) if sum(x) <= k] if isinstance(pat, GPat) else poly_deg(2, k))       # bilinear cells: total degree on slanted sides
    N = None if isinstance(pat, GPat) else (pat.nx, pat.ny)
    for d, (ss, w, a) in con.items():
        p = sorted(pos[d])[0]
        def near(g):
            best = None
            for z in pos[g]:
                for sh in pat.shifts():
                    y = tuple(a_ + b_ for a_, b_ in zip(z, sh))
                    r = max(abs(a_ - b_) for a_, b_ in zip(y, p))
                    if best is None or r < best[0]: best = (r, y)
            return best[1]
        if any(N[k_] * (2 ** min(len(c) - 1 for c in leaves)) < 2 for k_ in pat.per): continue      # images ambiguous
        env.eq('weights reproduce polynomials', sum(float(wi) * qp(*map(float, near(g))) for g, wi in zip(ss, w)), qp(*map(float, p)), (d, ss))
        env.eq('weights sum to one', sum(float(wi) for wi in w), 1.)

def h_quad(env, nx=2, ny=2, per=(), k=2, el='Q2', sub=False, first=(), maxd=2, coarse=False):
    mesh, pat, X = qmesh(env, nx, ny, per, unit=True)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    if not mesh.is_balanced(): return
    run(env, mesh, pat, X, el, sub)

def h_gen(env, layout='pair', rot='any', order=None, k=1, el='Q2', sub=False, first=(), maxd=2, coarse=False):
    """meshes of general quadrilaterals: any connectivity and starting corners"""
    mesh, pat, X = gmesh(env, layout, rot, unit=True, order=order)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    if not mesh.is_balanced(): return
    run(env, mesh, pat, X, el, sub)

def h_none(env, el='DQ1', dim=2):
    """discontinuous elements and intervals have no constraints"""
    m = M('fem'); e = fe(dim, el)
    mesh, pat, X = qmesh(env, 2, 1, unit=True) if dim == 2 else imesh(env, 2, unit=True)
    grow(env, pat, mesh, 1, 1)
    dh = m.DofHandler(mesh, e); dh.distribute_dofs(); dh.set_hanging_nodes()
    env.prove('no constraints', list(dh.constraints['constrained_dofs']) == [] and not dh.has_hanging_nodes())

def h_coef(env, el='Q2'):
    """tabulated side weights"""
    e = fe(2, el); k = e.polynomial_degree(); T = e.constraint_coefficients()
    q = spoly(env, 'q', poly_deg(1, k))
    env.prove('both halves', len(T) == 2)
    for h in range(2):
        env.prove('new nodes', sorted(T[h]) == [i for i in range(k + 1) if (i + k * h) % 2], (h, sorted(T[h])))
        for i, w in T[h].items():
            env.eq('weights', sum(float(w[j]) * q(float(Fr(j, k))) for j in range(k + 1)), q(float(Fr(i + k * h, 2 * k))), (h, i))

def tasks(tier):
    th = tier != 'quick'; T = []
    for el in ('Q1', 'Q2', 'Q3'):
        for nx, ny, pers in ((1, 1, [(), (0,), (0, 1)]), (2, 1, [(), (0,), (1,), (0, 1)]), (1, 2, [(1,)]), (2, 2, [(), (0,), (1,), (0, 1)]), (3, 2, [(), (0, 1)])):
            for per in pers:
                k = 3 if nx * ny <= 2 else 2
                if th: k += 1
                elif el == 'Q3': k -= 1
                T.append(('h_quad', dict(nx=nx, ny=ny, per=per, k=k, el=el)))
        for per in ((), (0, 1)):
            T.append(('h_quad', dict(nx=2, ny=2, per=per, k=1, el=el, first=((0,), (3,), (2,), (1,)))))
            T.append(('h_quad', dict(nx=2, ny=1, per=per, k=1, maxd=3, el=el, first=((0,), (1,), (0, 1), (0, 2)))))
        T.append(('h_quad', dict(nx=2, ny=1, k=2 if th else 1, el=el, sub=True, first=((0,),))))
        T.append(('h_quad', dict(nx=2, ny=1, k=0, el=el, sub=True, first=((0,), (1,), (0, 1)))))
        T.append(('h_quad', dict(nx=2, ny=2, per=(0, 1), k=0, el=el, sub=True, first=((0,), (3,)))))
        T.append(('h_coef', dict(el=el)))
        for lay in ('pair', 'three', 'L', 'ring'):
            if lay == 'pair' or el in ('Q1', 'Q3') or th: T.append(('h_gen', dict(layout=lay, k=1 if lay == 'pair' else 0, el=el, first=() if lay == 'pair' else ((0,),))))
            T.append(('h_gen', dict(layout=lay, rot=(0, 1, 2, 3), k=2, el=el)))
            T.append(('h_gen', dict(layout=lay, rot=(3, 1, 0, 2), order=(1, 0, 3, 2) if lay == 'ring' else (1, 0, 2) if lay in ('three', 'L') else None, k=1, first=((0,), (1,)), maxd=3, el=el)))
            T.append(('h_gen', dict(layout=lay, rot=(2, 0, 3, 1), k=1, first=((0,), (1,), (0, 1), (0, 2)), maxd=3, el=el)))
        T.append(('h_gen', dict(layout='pair', rot=(1, 2), k=0, first=((0,),), el=el, sub=True)))
        T.append(('h_gen', dict(layout='three', rot=(1, 2, 0), k=0, first=((0,),), el=el, sub=True)))
        T += [('h_gen', dict(layout='five', rot=r, k=1, el=el, first=f)) for r, f in (((0, 0, 0, 0, 0), ()), ((0, 1, 2, 3, 1), ((1,), (3,))), ((3, 0, 2, 1, 2), ((0,), (1,), (2,))))]
    T += [('h_none', dict(el=el, dim=2)) for el in ('DQ0', 'DQ1', 'DQ2')] + [('h_none', dict(el=el, dim=1)) for el in ('Q1', 'Q2')]
    # cells are removed again
    for el in ('Q1', 'Q2', 'Q3'):
        T.append(('h_quad', dict(nx=2, ny=1, k=2, el=el, first=((0,), (1,)), coarse=True)))
        T.append(('h_quad', dict(nx=2, ny=1, k=1, el=el, maxd=3, first=((0,), (1,), (0, 1), (1, 0), (1, 3)), coarse=True)))
        T.append(('h_quad', dict(nx=2, ny=2, per=(0,) if el != 'Q2' else (0, 1), k=1, el=el, first=((0,), (1,), (2,), (3,)), coarse=True)))
    T.append(('h_quad', dict(nx=2, ny=1, k=1, el='Q2', first=((0,), (1,), (0, 1), (1, 0)), coarse=True, sub=True)))
    T.append(('h_gen', dict(layout='pair', rot=(3, 1, 0, 2), k=2, el='Q2', first=((0,), (1,)), coarse=True)))
    return T
