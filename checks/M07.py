"""M07: region marking and boundary extraction."""
import numpy as np
from .common import M, And, Or, Not, Iff, Imp, rows
from .meshu import Pat, node, grow, build, qmesh, imesh
from .genu import GPat, gmesh
from .M04 import mark_sub, leaf_bit
from .M06 import submesh
from .M08 import SHAPES
MODS = ['mesh']
BOUNDS = ('interval meshes of 1-3 roots and quadrilateral meshes of up to 2x2 roots (3x1, 1x3; multiply connected and several components from point lists), '
          'fixed and symbolic refinement histories (up to 2 splits), every nested sub-mesh; predicates: an arbitrary truth value per vertex (up to 9 vertices) '
          'or half-planes with symbolic position on a symbolic box; general quadrilaterals (2-4 cells, any starting corners for two); all entity types, strict or not, interior or boundary; small meshes also after coarsening')
OUTSIDE = 'tear_region; larger meshes; boundaries meeting in a vertex of degree four'

def pred(env, pat, X, mode, dim):
    """returns (f for the code, F: pattern point -> formula)"""
    if mode == 'bits':
        # unit coordinates: arbitrary truth value per vertex position
        bits = {}
        def key(p): return tuple(round(float(t) * 64) for t in p)
        def F(p):
            k = key(p)
            if k not in bits: bits[k] = env.bit('f' + '_'.join(map(str, k)))
            return bits[k]
        f = (lambda x: bool(F((x,)))) if dim == 1 else (lambda x, y: bool(F((x, y))))
        return f, F
    c = env.real('c', -64, 256)
    if mode == 'x':
        f = (lambda x: x <= c) if dim == 1 else (lambda x, y: x <= c)
        return f, lambda p: X(p)[0] <= c
    if mode == 'y': return (lambda x, y: y >= c), lambda p: X(p)[1] >= c
    e = env.real('e', -64, 256)
    if mode == 'band': return ((lambda x: bool(x >= c) and bool(x <= e)) if dim == 1 else (lambda x, y: bool(x >= c) and bool(y <= e))), \
        ((lambda p: And(X(p)[0] >= c, X(p)[0] <= e)) if dim == 1 else (lambda p: And(X(p)[0] >= c, X(p)[1] <= e)))

# ------------------------------------------------------------------ 1D
def h_1d(env, n=2, per=False, first=(), k=0, ent='vertex', strict=True, bnd=False, sub=False, mode='bits', coarse=False):
    mesh, pat, X = imesh(env, n, per, unit=(mode == 'bits'))
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, 2, coarse=coarse)
    cells = set(pat.cells); kw = {}
    if sub: cells = submesh(env, mesh, pat); kw = dict(subforest_flag='sub')
    leaves = [c for c in cells if c + (0,) not in cells]
    f, F = pred(env, pat, X, mode, 1)
    N = pat.nx
    try: mesh.mark_region('r', f, entity_type=ent, strict_containment=strict, on_boundary=bnd, **kw)
    except AssertionError: env.fail('accepted'); return
    ends = lambda c: pat.corners(c)
    if per: isb = lambda p: False
    else: isb = lambda p: p[0] in (0, N)
    def cellF(c): return And(*[F(p) for p in ends(c)]) if strict else Or(*[F(p) for p in ends(c)])
    obj = {}
    for c in pat.cells:
        for v, p in zip(node(mesh, c).get_vertices(), ends(c)): obj[p] = v
    lp = {p for c in leaves for p in ends(c)}
    want_v = {p: (F(p) if ent == 'vertex' and p in lp and (not bnd or isb(p)) else False) for p in obj}
    want_c = {c: (cellF(c) if ent == 'cell' and c in leaves and (not bnd or any(isb(p) for p in ends(c))) else False) for c in pat.cells}
    for p, v in obj.items(): env.prove('vertex marked', Iff(v.is_marked('r'), want_v[p]), p)
    for c in pat.cells: env.prove('cell marked', Iff(node(mesh, c).is_marked('r'), want_c[c]), c)
    # read back
    for rc in (False, True):
        for fl in ('r', None):
            for ob in ((bnd,) if rc else (False, True)):
                got = mesh.get_region(flag=fl, entity_type=ent, on_boundary=ob, return_cells=rc, **kw)
                env.prove('each once', len(got) == len(set(got)))
                okc = [c for c in leaves if not ob or any(isb(p) for p in ends(c))]
                if ent == 'cell':
                    for c in pat.cells:
                        i = node(mesh, c); inn = ((i, i) if rc else i) in got
                        env.prove('cells read back', Iff(inn, c in okc and (True if fl is None else want_c[c])), (c, fl, ob))
                    env.prove('nothing else', len(got) <= len(okc))
                else:
                    for p, v in obj.items():
                        on = p in lp and (not ob or isb(p))
                        w = on and (True if fl is None else want_v[p])
                        if not rc: env.prove('vertices read back', Iff(v in got, w), (p, fl, ob))
                        else:
                            for c in pat.cells:
                                env.prove('vertex-cell pairs', Iff((v, node(mesh, c)) in got, (c in okc and p in ends(c)) and w), (p, c, fl))
                    env.prove('nothing else', all((g[0] if rc else g) in obj.values() for g in got))
    bc = mesh.get_boundary_cells(**kw); bv = mesh.get_boundary_vertices()
    if per: env.prove('no boundary', bc is None and bv is None)
    else:
        env.prove('boundary vertices', bv[0] is obj[(0,)] and bv[1] is obj[(N,)])
        L = [c for c in leaves if (0,) in ends(c)][0]; R = [c for c in leaves if (N,) in ends(c)][0]
        env.prove('boundary cells', bc[0] is node(mesh, L) and bc[1] is node(mesh, R))

# ------------------------------------------------------------------ 2D
def sides(pat, leaves):
    """oriented sides of leaves: (p, q) -> (cell, k)"""
    return {(pat.corners(c)[k], pat.corners(c)[(k + 1) % 4]): (c, k) for c in leaves for k in range(4)}

def on_bnd(pat, c, k):
    if isinstance(pat, GPat): return pat.on_bnd(c, k)
    s = pat.side(c, k); ax = 1 - s[0]
    return ax not in pat.per and s[1] in (0, (pat.nx, pat.ny)[ax])

def h_2d(env, nx=1, ny=1, per=(), first=(), k=0, ent='vertex', strict=True, bnd=False, sub=False, mode='bits', layout=None, rot=None, coarse=False):
    mesh, pat, X = gmesh(env, layout, rot, unit=(mode == 'bits')) if layout else qmesh(env, nx, ny, per, unit=(mode == 'bits'))
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, 2, coarse=coarse)
    cells = set(pat.cells); kw = {}
    if sub: cells = submesh(env, mesh, pat); kw = dict(subforest_flag='sub')
    leaves = [c for c in cells if c + (0,) not in cells]
    f, F = pred(env, pat, X, mode, 2)
    mesh.mark_region('r', f, entity_type=ent, strict_containment=strict, on_boundary=bnd, **kw)
    obj = {}; hes = {}
    for c in pat.cells:
        nd = node(mesh, c)
        for v, p in zip(nd.get_vertices(), pat.corners(c)): obj[p] = v
        for h, kk in zip(nd.get_half_edges(), range(4)): hes[(c, kk)] = h
    bs = [(c, kk) for c in leaves for kk in range(4) if on_bnd(pat, c, kk)]
    allq = lambda ps: And(*[F(p) for p in ps]) if strict else Or(*[F(p) for p in ps])
    he_pts = lambda c, kk: [pat.corners(c)[kk], pat.corners(c)[(kk + 1) % 4]]
    sel = bs if bnd else [(c, kk) for c in leaves for kk in range(4)]
    lp = {p for c, kk in sel for p in he_pts(c, kk)}
    selc = {c for c, kk in sel}
    want_v = {p: (F(p) if ent == 'vertex' and p in lp else False) for p in obj}
    want_h = {h: (allq(he_pts(*h)) if ent == 'half_edge' and h in sel else False) for h in hes}
    want_c = {c: (allq(pat.corners(c)) if ent == 'cell' and c in selc else False) for c in pat.cells}
    for p, v in obj.items(): env.prove('vertex marked', Iff(v.is_marked('r'), want_v[p]), p)
    for c in pat.cells: env.prove('cell marked', Iff(node(mesh, c).is_marked('r'), want_c[c]), c)
    for h in hes: env.prove('half-edge marked', Iff(hes[h].is_marked('r'), want_h[h]), h)
    for rc in (False, True):
        for fl in ('r', None):
            for ob in ((bnd,) if rc else (False, True)):
                got = mesh.get_region(flag=fl, entity_type=ent, on_boundary=ob, return_cells=rc, **kw)
                env.prove('each once', len(got) == len(set(got)))
                S2 = set(bs if ob else [(c, kk) for c in leaves for kk in range(4)])
                T = lambda w: True if fl is None else w
                if ent == 'cell':
                    cs = {c for c, kk in S2}
                    for c in pat.cells:
                        i = node(mesh, c)
                        env.prove('cells read back', Iff(((i, i) if rc else i) in got, c in cs and T(want_c[c])), (c, fl, ob))
                    env.prove('nothing else', len(got) <= len(cs))
                elif ent == 'half_edge':
                    for h in hes:
                        env.prove('half-edges read back', Iff(((hes[h], node(mesh, h[0])) if rc else hes[h]) in got, h in S2 and T(want_h[h])), (h, fl, ob))
                    env.prove('nothing else', len(got) <= len(S2))
                else:
                    for p, v in obj.items():
                        if not rc: env.prove('vertices read back', Iff(v in got, any(p in he_pts(*h) for h in S2) and T(want_v[p])), (p, fl, ob))
                        else:
                            for c in pat.cells:
                                env.prove('vertex-cell pairs', Iff((v, node(mesh, c)) in got, any(p in he_pts(*h) for h in S2 if h[0] == c) and T(want_v[p])), (p, c, fl))
                    env.prove('nothing else', all((g[0] if rc else g) in obj.values() for g in got))
    if ent == 'half_edge':
        chk_segments(env, mesh, [hes[h] for h in bs], {id(hes[h]): he_pts(*h) for h in hes}, None, **kw)
        chk_segments(env, mesh, [hes[h] for h in bs], {id(hes[h]): he_pts(*h) for h in hes}, {id(hes[h]): want_h[h] for h in hes}, **kw)

def chk_segments(env, mesh, bs, pts, want, **kw):
    """boundary segments: every boundary half-edge of the leaves once, chained; restricted to a flag: exactly the flagged ones"""
    fk = dict(flag='r') if want is not None else {}
    seg = mesh.get_boundary_segments(**fk, **kw)
    allh = [h for s in seg for h in s]
    env.prove('segments: each once', len({id(h) for h in allh}) == len(allh))
    bid = {id(h) for h in bs}
    env.prove('segments: only boundary', all(id(h) in bid for h in allh))
    for h in bs: env.prove('segments: exactly the %s half-edges' % ('flagged' if want is not None else 'boundary'), Iff(any(h is g for g in allh), True if want is None else want[id(h)]), pts.get(id(h)))
    if want is None:
        for s in seg: env.prove('segments chained', all(a.head() is b.base() for a, b in zip(s, s[1:])))
        # maximal: no two segments could be joined, unless they are closed
        for s in seg:
            for t in seg:
                if s is not t: env.prove('segments maximal', not (s[-1].head() is t[0].base() and not (s[-1].head() is s[0].base() or t[-1].head() is t[0].base())))
    bv = mesh.get_boundary_vertices(**fk, **kw)
    exp = {}
    for h in bs:
        for v in h.get_vertices(): exp[id(v)] = Or(exp.get(id(v), False), True if want is None else want[id(h)])
    got = [id(v) for v in bv]
    for v in exp: env.prove('boundary vertices', Iff(v in got, exp[v]))
    env.prove('boundary vertices once', len(set(got)) == len(got) and set(got) <= set(exp))

def h_seg(env, shape='ring', perm=0, split=(), sub=False):
    """boundary segments of meshes from point lists (holes, several components), with splits"""
    m = M('mesh')
    base, faces = SHAPES[shape]
    ox, oy = env.real('ox', -8, 8), env.real('oy', -8, 8); w, h = env.pos('w', .1, 8), env.pos('h', .1, 8)
    co = [(ox + w * p[0], oy + h * p[1]) for p in base]
    fs = [list(f) for f in faces]
    if perm: fs = fs[perm:] + fs[:perm]; fs = [f[perm % 4:] + f[:perm % 4] for f in fs]
    mesh = m.QuadMesh(x=rows(co), connectivity=fs)
    nf = len(fs)
    for s in split:
        c = mesh.cells.get_child(s[0] % nf)
        for j in s[1:]: c = c.get_child(j)
        c.split()
    c = env.choice('split', [None] + list(range(nf)))
    if c is not None and not mesh.cells.get_child(c).has_children(): mesh.cells.get_child(c).split()
    bs = []
    for leaf in mesh.cells.get_leaves():
        for he in leaf.get_half_edges():
            r = he
            while r.has_parent(): r = r.get_parent()
            if r.twin() is None and r.cell() is not None and he.twin() is None:
                # a side without twin whose root half-edge has none either lies on the boundary
                if r in [mesh.half_edges.get_child(i) for i in range(mesh.half_edges.n_children())]: bs.append(he)
    # independent of twins: geometric boundary of the root grid
    cnt = {}
    for f in fs:
        for a, b in zip(f, f[1:] + f[:1]): cnt[frozenset((a, b))] = cnt.get(frozenset((a, b)), 0) + 1
    chk_segments(env, mesh, bs, {}, None)
    L = 0
    for s in mesh.get_boundary_segments():
        for he in s: L = L + he.length()
    tot = 0
    for e, k in cnt.items():
        if k == 1:
            a, b = tuple(e)
            horiz = base[a][1] == base[b][1]
            tot = tot + (w if horiz else h)
    env.eq('length of the boundary', L, tot)

def h_record(env, dim=2, nx=1, ny=1, per=(), layout=None, rot=None, k=1, k2=1, coarse=False):
    """a recorded mesh (Mesh.record) keeps its cells, entities and boundary whatever is refined afterwards"""
    if dim == 1: mesh, pat, X = imesh(env, nx, bool(per))
    elif layout: mesh, pat, X = gmesh(env, layout, rot)
    else: mesh, pat, X = qmesh(env, nx, ny, per)
    grow(env, pat, mesh, k, 2, coarse=coarse)
    before = pat.leaves()
    old = [node(mesh, c) for c in pat.cells]
    mesh.record('rec')
    kinds = ('cell', 'vertex') + (('half_edge',) if dim == 2 else ())
    def view(kw):
        o = {}
        for e in kinds:
            for ob in (False, True):
                o[e, ob] = {id(g) for g in mesh.get_region(entity_type=e, on_boundary=ob, **kw)}
        if dim == 2: o['seg'] = {frozenset(id(h) for h in s) for s in mesh.get_boundary_segments(**kw)}
        else:
            bc = mesh.get_boundary_cells(**kw); o['bc'] = None if bc is None else [id(c) for c in bc]
        return o
    v0 = view({}); v1 = view(dict(subforest_flag='rec'))
    env.prove('recorded mesh is the current mesh', v0 == v1)
    grow(env, pat, mesh, k2, 3, among=None, name='t')
    v2 = view(dict(subforest_flag='rec'))
    env.prove('recorded mesh kept', v2 == v1)
    got = mesh.cells.get_leaves(subforest_flag='rec')
    env.prove('leaves kept', {id(c) for c in got} == {id(node(mesh, c)) for c in before} and len(got) == len(before))
    env.prove('only old cells recorded', all(node(mesh, c).is_marked('rec') == any(node(mesh, c) is o for o in old) for c in pat.cells))
    # a second record under another name leaves the first alone
    mesh.record('rec2')
    env.prove('first record kept', view(dict(subforest_flag='rec')) == v1)
    env.prove('second is current', view(dict(subforest_flag='rec2')) == view({}))

def tasks(tier):
    th = tier != 'quick'
    T = []
    for ent in ('vertex', 'cell'):
        for st in (True, False):
            if ent == 'vertex' and not st: continue
            for b in (False, True):
                for per in (False, True):
                    T.append(('h_1d', dict(n=2, per=per, k=2, ent=ent, strict=st, bnd=b)))
                    T.append(('h_1d', dict(n=2, per=per, first=((0,), (1,), (0, 1)), ent=ent, strict=st, bnd=b, sub=True)))
                    T.append(('h_1d', dict(n=3, per=per, k=1, ent=ent, strict=st, bnd=b, sub=True, mode='band')))
                T.append(('h_1d', dict(n=1, k=2, ent=ent, strict=st, bnd=b)))
    for ent in ('vertex', 'half_edge', 'cell'):
        for st in (True, False):
            if ent == 'vertex' and not st: continue
            for b in (False, True):
                kw = dict(ent=ent, strict=st, bnd=b)
                T.append(('h_2d', dict(nx=1, ny=1, **kw)))
                T.append(('h_2d', dict(nx=2, ny=1, **kw)))
                T.append(('h_2d', dict(nx=1, ny=1, first=((0,),), sub=True, **kw)))
                T.append(('h_2d', dict(nx=2, ny=1, k=1, sub=True, mode='x', **kw)))
                T.append(('h_2d', dict(nx=2, ny=2, k=1 if not th else 2, mode='y', **kw)))
                T.append(('h_2d', dict(nx=1, ny=3, k=1, sub=True, mode='band', **kw)))
                for per in ((0,), (1,), (0, 1)):
                    T.append(('h_2d', dict(nx=2, ny=2, per=per, k=1, mode='x', **kw)))
                    if per != (0, 1): T.append(('h_2d', dict(nx=2 if per == (0,) else 1, ny=1 if per == (0,) else 2, per=per, **kw)))
                T.append(('h_2d', dict(nx=2, ny=2, first=((0,), (3,), (3, 1)), sub=True, mode='x', **kw)))
                T.append(('h_2d', dict(nx=2, ny=2, first=((0,), (0, 0), (2,)), sub=True, mode='band', **kw)))
                for lay, rot in (('pair', (1, 3)), ('three', (2, 0, 1)), ('L', (0, 3, 1)), ('ring', (3, 1, 0, 2))):
                    T.append(('h_2d', dict(layout=lay, rot=rot, first=((1,),) if lay != 'ring' else (), sub=lay == 'L', mode='band' if lay == 'three' else 'x', **kw)))
                T.append(('h_2d', dict(layout='pair', rot='any', mode='y', **kw)))
                if ent != 'cell' or st: T.append(('h_2d', dict(layout='three' if ent == 'cell' else 'pair', rot=(1, 2, 3), **kw)))
    for s in ('ring', 'two', 'L3', 'quads'):
        for p in (0, 1, 2, 3): T.append(('h_seg', dict(shape=s, perm=p)))
        T.append(('h_seg', dict(shape=s, split=((0,), (0, 0), (1,)))))
    for n, per in ((1, False), (2, False), (2, True), (3, False)): T.append(('h_record', dict(dim=1, nx=n, per=(0,) if per else (), k=2)))
    for nx, ny, per in ((1, 1, ()), (2, 1, ()), (2, 2, ()), (2, 2, (0,)), (2, 2, (0, 1)), (1, 3, ())): T.append(('h_record', dict(nx=nx, ny=ny, per=per, k=1 if not th else 2, k2=1 if not th else 2)))
    for lay, rot in (('pair', (1, 3)), ('three', (2, 0, 1)), ('L', (0, 3, 1)), ('ring', (3, 1, 0, 2))): T.append(('h_record', dict(layout=lay, rot=rot)))
    # cells removed again before the regions are marked
    for ent in ('vertex', 'half_edge', 'cell'):
        for b in (False, True):
            T.append(('h_2d', dict(nx=2, ny=1, k=1, first=((0,), (1,)), coarse=True, mode='x', ent=ent, bnd=b)))
            T.append(('h_2d', dict(nx=2, ny=2, per=(1,), k=1, first=((0,), (1,), (0, 1)), coarse=True, mode='y', ent=ent, bnd=b)))
            T.append(('h_2d', dict(layout='L', rot=(0, 3, 1), k=1, first=((0,), (1,)), coarse=True, mode='band', ent=ent, bnd=b)))
            if ent != 'half_edge': T.append(('h_1d', dict(n=2, k=2, first=((0,), (1,), (0, 1)), coarse=True, ent=ent, bnd=b)))
    T.append(('h_record', dict(dim=1, nx=2, k=2, coarse=True)))
    for per in ((), (0,)): T.append(('h_record', dict(nx=2, ny=1, per=per, k=2, coarse=True)))
    T.append(('h_record', dict(layout='pair', rot=(1, 3), k=2, coarse=True)))
    return T
