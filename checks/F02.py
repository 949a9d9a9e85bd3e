"""F02: degrees of freedom are shared exactly when they sit at the same place."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, And, Or, Not, Iff
from .meshu import Pat, node, grow, build, qmesh, imesh
from .genu import GPat, gmesh
from .M04 import mark_sub, leaf_bit
MODS = ['mesh', 'fem']
BOUNDS = ('interval meshes of 1-3 roots (every history of up to 3 splits, depth 3) and quadrilateral meshes of up to 3x2 roots on a symbolic box (every 2:1 '
          'balanced history of up to 3 splits, depth 2), all periodic settings, elements DQ0, Q1-Q3, DQ1-DQ3, '
          'whole mesh and every rooted sub-mesh; renewed distribution after further refinement, with or without clearing; meshes of general quadrilaterals on every affine box: two cells, an L, three or five cells around a vertex, a ring with a hole, cells numbered from any corner (all choices for the smaller ones), up to 2 splits and fixed deeper patterns; histories in which cells are also removed again (coarsening): up to 2 steps on top of fixed patterns')
OUTSIDE = 'triangles, deeper histories'
TASK_S = 150

EL = ['DQ0', 'Q1', 'DQ1', 'Q2', 'DQ2', 'Q3', 'DQ3']

def fe(dim, el): return M('fem').QuadFE(dim, el)

def nodes_of(pat, c, ref):
    """positions (pattern units) of the element's nodes in cell c"""
    if isinstance(pat, GPat): return pat.nodes(c, ref)
    b = pat.box(c)
    return [tuple(lo + (hi - lo) * Fr(float(r)).limit_denominator(12) for r, (lo, hi) in zip(x, b)) for x in ref]

def check(env, dh, e, mesh, pat, X, cells, leaves, torn, flag=None, tag=''):
    ref = np.array(e.reference_nodes(), dtype=float).reshape(e.n_dofs(), -1)
    slot = {}                                    # dof -> [(cell, local, position)]
    for c in cells:
        d = dh.get_cell_dofs(node(mesh, c))
        places = {pat.norm(p) for p in nodes_of(pat, c, ref)} if not torn else d
        env.prove('as many as the element has' + tag, d is not None and len(d) == e.n_dofs() and None not in d and len(set(d)) == len(places), (c, d))
        if d is None or None in d: return None
        for j, (g, p) in enumerate(zip(d, nodes_of(pat, c, ref))): slot.setdefault(int(g), []).append((c, j, p))
    lset = set(leaves)
    place = {}
    for g, ss in slot.items():
        ps = {pat.norm(p) for c, j, p in ss}
        env.prove('one place per number' + tag, len(ps) == 1, (g, ss))
        if torn:
            ls = [s for s in ss if s[0] in lset]
            env.prove('no sharing between different cells' + tag, len({s[0] for s in ls}) <= 1 and len(ls) == len(set(ls)), (g, ls))
        else:
            for p in ps:
                env.prove('one number per place' + tag, place.get(p, g) == g, (p, g, place.get(p)))
                place[p] = g
    return slot

def locations(env, dh, mesh, pat, X, dofs, slot, flag=None):
    v = dh.get_dof_vertices(list(dofs))
    env.prove('one location each', len(v) == len(dofs))
    for g, x in zip(dofs, v):
        ps = {p for c, j, p in slot[int(g)]}
        if getattr(pat, 'merged', False) and pat.per:       # the location may come from a removed cell: any periodic image
            ps = {q for p in ps for sh in pat.shifts() for q in [tuple(a + b for a, b in zip(p, sh))] if all(0 <= v <= n for v, n in zip(q, (pat.nx, pat.ny or 0)))}
        x = np.array(x, dtype=object).ravel()
        def at(p): return And(*[a == b for a, b in zip(x, X(p))]) if env.symbolic else all(abs(float(a) - float(b)) < 1e-6 * max(1, abs(float(b))) for a, b in zip(x, X(p)))
        # exact image of one of its nodes
        if len(ps) == 1: env.eq('location', x, list(X(list(ps)[0])), (g,))
        else: env.prove('location', Or(*[at(p) for p in sorted(ps)]), (g, sorted(ps)))

def run(env, mesh, pat, X, el, dim, sub=False, again=None, coarse=False):
    m = M('fem'); e = fe(dim, el); torn = el[:2] == 'DQ'
    mk = mark_sub(env, mesh, pat, 'sub') if sub else {c: True for c in pat.cells}
    kw = dict(subforest_flag='sub') if sub else {}
    dh = m.DofHandler(mesh, e); dh.distribute_dofs(**kw)
    gone = False
    for rnd in range(2 if again else 1):
        if rnd:
            if again in ('refine', 'clear'):
                grow(env, pat, mesh, 1, 3, name='r', coarse=coarse); gone = coarse and again == 'refine'
                if dim == 2 and not mesh.is_balanced(): return
                mk = {c: True for c in pat.cells}
            if again == 'clear': dh.clear_dofs(); env.prove('cleared', dh.n_dofs(all_dofs=True) == 0)
            dh.distribute_dofs(**kw)
        cells = [c for c in pat.cells if bool(mk[c])]
        leaves = [c for c in cells if c not in pat.split_set or not bool(mk[c + (0,)])]
        slot = check(env, dh, e, mesh, pat, X, cells, leaves, torn)
        if slot is None: return
        if gone: env.prove('numbers below the count', max(slot) < dh.n_dofs(all_dofs=True))      # removed cells leave gaps
        else: env.prove('contiguous from zero', sorted(slot) == list(range(dh.n_dofs(all_dofs=True))), (sorted(slot), dh.n_dofs(all_dofs=True)))
        used = sorted({g for g, ss in slot.items() if any(c in set(leaves) for c, j, p in ss)})
        env.prove('count', dh.n_dofs(**kw) == len(used))
        env.prove('region', sorted(dh.get_region_dofs(**kw)) == used)
        locations(env, dh, mesh, pat, X, used, slot)

def h_int(env, n=2, per=False, k=2, el='Q2', sub=False, again=None, first=(), maxd=3, coarse=False):
    mesh, pat, X = imesh(env, n, per)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    run(env, mesh, pat, X, el, 1, sub, again, coarse)

def h_quad(env, nx=2, ny=2, per=(), k=2, el='Q2', sub=False, again=None, first=(), maxd=2, coarse=False):
    mesh, pat, X = qmesh(env, nx, ny, per)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    if not mesh.is_balanced(): return
    run(env, mesh, pat, X, el, 2, sub, again, coarse)

def h_gen(env, layout='pair', rot='any', order=None, k=1, el='Q2', sub=False, again=None, first=(), maxd=2, coarse=False):
    """meshes of general quadrilaterals: any connectivity and starting corners"""
    mesh, pat, X = gmesh(env, layout, rot, order=order)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    if not mesh.is_balanced(): return
    run(env, mesh, pat, X, el, 2, sub, again, coarse)

def h_two(env, el='Q1', dim=2):
    """two overlapping sub-meshes numbered one after the other"""
    m = M('fem'); e = fe(dim, el)
    mesh, pat, X = qmesh(env, 2, 1) if dim == 2 else imesh(env, 2)
    for c in ((0,), (1,)): node(mesh, c).split(); pat.split(c)
    mk = {'a': mark_sub(env, mesh, pat, 'a')}
    mb = {}
    for c in pat.cells:
        mb[c] = Not(mk['a'][c]) if len(c) > 1 else True
    for c in pat.cells:
        env.markall([node(mesh, c)], 'b', mb[c])
    mk['b'] = mb
    dh = m.DofHandler(mesh, e); allc = set()
    for f in 'ab':
        dh.distribute_dofs(subforest_flag=f)
        cells = [c for c in pat.cells if bool(mk[f][c])]; allc |= set(cells)
        leaves = [c for c in cells if c not in pat.split_set or not bool(mk[f][c + (0,)])]
        slot = check(env, dh, e, mesh, pat, X, cells, leaves, el[:2] == 'DQ', tag=' (%s)' % f)
        if slot is None: return
        used = sorted({g for g, ss in slot.items() if any(c in set(leaves) for c, j, p in ss)})
        env.prove('region', sorted(dh.get_region_dofs(subforest_flag=f)) == used)
        locations(env, dh, mesh, pat, X, used, slot)

def tasks(tier):
    th = tier != 'quick'; T = []
    for el in EL:
        for n, per in ((1, False), (1, True), (2, False), (2, True), (3, True)):
            T.append(('h_int', dict(n=n, per=per, k=3, el=el)))
        T.append(('h_int', dict(n=2, per=False, k=1, el=el, sub=True, first=((0,), (0, 1)))))
        T.append(('h_int', dict(n=2, per=True, k=1, el=el, sub=True, first=((0,),))))
        T.append(('h_int', dict(n=2, per=True, k=1, el=el, again='refine')))
        for nx, ny, pers in ((1, 1, [(), (0,), (1,), (0, 1)]), (1, 2, [(0,), (0, 1)]), (2, 1, [(), (0,), (1,), (0, 1)]), (2, 2, [(), (0,), (1,), (0, 1)]), (3, 2, [(), (0, 1)])):
            for per in pers:
                k = 3 if nx * ny <= 2 else 2
                T.append(('h_quad', dict(nx=nx, ny=ny, per=per, k=k + (1 if th else 0), el=el)))
        for per in ((), (0, 1)):
            T.append(('h_quad', dict(nx=2, ny=2, per=per, k=1, el=el, first=((0,), (3,), (2,), (1,)))))
        T.append(('h_quad', dict(nx=2, ny=1, k=1, el=el, sub=True, first=((0,),))))
        T.append(('h_quad', dict(nx=2, ny=2, per=(0, 1), k=0, el=el, sub=True, first=((0,), (3,)))))
        T.append(('h_quad', dict(nx=2, ny=1, per=(), k=1, el=el, again='refine')))
        T.append(('h_quad', dict(nx=2, ny=2, per=(0, 1), k=0, el=el, again='refine')))
        T.append(('h_int', dict(n=2, per=el == 'Q1', k=1, el=el, again='clear')))
        T.append(('h_quad', dict(nx=2, ny=1, per=(), k=0, el=el, again='clear', first=((1,),))))
        T += [('h_two', dict(el=el, dim=d)) for d in (1, 2)]
        if el == 'DQ3' and not th: continue
        for lay in ('pair', 'three', 'L', 'ring'):
            if lay == 'pair' or el in ('Q1', 'Q3') or th: T.append(('h_gen', dict(layout=lay, k=1 if lay == 'pair' else 0, el=el)))
            T.append(('h_gen', dict(layout=lay, rot=(0, 1, 2, 3), k=2, el=el)))
            T.append(('h_gen', dict(layout=lay, rot=(3, 1, 0, 2), order=(1, 0, 3, 2) if lay == 'ring' else (1, 0, 2) if lay in ('three', 'L') else None, k=1, first=((0,), (1,)), maxd=3, el=el)))
        T.append(('h_gen', dict(layout='pair', rot=(1, 2), k=0, first=((0,),), el=el, sub=True)))
        T.append(('h_gen', dict(layout='three', rot=(1, 2, 0), k=0, el=el, again='refine')))
        T += [('h_gen', dict(layout='five', rot=r, k=1, el=el)) for r in ((0, 0, 0, 0, 0), (0, 1, 2, 3, 1), (3, 0, 2, 1, 2))]
    # cells are removed again before, or after, the dofs are distributed
    for el in ('Q1', 'Q2', 'Q3'):
        T.append(('h_quad', dict(nx=2, ny=1, k=1, el=el, first=((0,), (1,), (0, 1)), coarse=True, again='refine')))
        T.append(('h_quad', dict(nx=2, ny=1, per=(0,), k=1, el=el, first=((0,), (1,)), coarse=True, again='clear')))
        T.append(('h_int', dict(n=2, per=el != 'Q2', k=1, el=el, first=((0,), (1,), (0, 1)), coarse=True, again='refine')))
    T.append(('h_quad', dict(nx=2, ny=1, k=2, el='Q2', first=((0,), (1,), (0, 1), (1, 0)), coarse=True)))
    T.append(('h_quad', dict(nx=2, ny=2, per=(0, 1), k=1, el='Q2', first=((0,), (1,), (2,), (3,)), coarse=True, again='refine')))
    T.append(('h_quad', dict(nx=2, ny=1, k=0, el='DQ1', first=((0,), (1,), (0, 1)), coarse=True, again='refine')))
    for lay in ('pair', 'L'): T.append(('h_gen', dict(layout=lay, rot=(3, 1, 0, 2), k=1, el='Q3' if lay == 'pair' else 'Q2', first=((0,), (1,)), coarse=True, again='refine')))
    return T
