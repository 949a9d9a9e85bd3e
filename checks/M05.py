"""M05: neighbour relations."""
import numpy as np
from .common import M, And, Or, Not, Iff, Imp
from .meshu import Pat, node, grow, build, qmesh, imesh, iforest
from .genu import GPat, gmesh
from .M04 import mark_sub, leaf_bit
MODS = ['mesh']
BOUNDS = ('interval meshes of 1-4 roots (cells splitting in 2, 3 or 4) and quadrilateral meshes of up to 3x3 roots, all periodic settings (periodic directions at least 2 cells wide in 2D), '
          'every history of up to 3 splits (depth 3) plus fixed deeper patterns, every marking of nested sub-meshes or of single cells, all cells, sides and corners; meshes of general quadrilaterals on every affine box: two cells, an L, three or five cells around a vertex, a ring with a hole, two cells touching in a corner, cells numbered from any corner (all choices for the smaller ones), up to 2 splits and fixed deeper patterns; histories in which cells are also removed again (coarsening): up to 2 steps on top of fixed patterns')
OUTSIDE = 'deeper histories; periodic directions one cell wide in 2D (not supported by the library); cells outside the requested sub-mesh'

def h_int(env, n=2, per=False, k=3, maxd=3, sub=False, first=(), arity=2, coarse=False):
    mesh, pat, X = imesh(env, n, per) if arity == 2 else iforest(env, n, per, arity)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    mk = mark_sub(env, mesh, pat, 'sub') if sub else {c: True for c in pat.cells}
    kw = dict(subforest_flag='sub') if sub else {}
    by = {id(node(mesh, c)): c for c in pat.cells}
    cand = [c for c in pat.cells if c in pat.split_set or len(c) > 1 or True]
    start = env.choice('cell', cand)
    if not bool(mk[start]): return
    I = node(mesh, start); (lo, hi), = pat.box(start)
    N = pat.nx
    for side in (0, 1):
        e = lo if side == 0 else hi
        if per: e2 = N if side == 0 and e == 0 else (0 if side == 1 and e == N else e)
        else: e2 = e
        true_end = (not per) and e in (0, N)
        opp = [c for c in pat.cells if pat.box(c)[0][1 - side] == e2 and not (true_end)]
        for piv in (side, I.base() if side == 0 else I.head()):
            r = I.get_neighbor(piv, **kw)
            if true_end: env.prove('no neighbour at the end', r is None, (start, side))
            else:
                c = by.get(id(r))
                env.prove('physical neighbour adjoins', c in opp, (start, side, c))
                if c in opp: env.prove('physical neighbour is a leaf of the sub-mesh', leaf_bit(pat, mk, c), (start, side, c))
            r = I.get_neighbor(piv, mode='level-wise', **kw)
            want = [c for c in opp if len(c) == len(start)]
            c = by.get(id(r)) if r is not None else None
            if not want: env.prove('level-wise: none', r is None, (start, side, c))
            elif r is None: env.prove('level-wise: exists', Not(mk[want[0]]), (start, side, want))
            else: env.prove('level-wise neighbour', And(c == want[0], mk[want[0]]), (start, side, c))
            if r is not None and c is not None:
                back = r.get_neighbor(1 - side, mode='level-wise', **kw)
                env.prove('level-wise symmetric', back is I, (start, side, c))

def across(pat, c, k, cells):
    """same-size cells across side k"""
    if isinstance(pat, GPat): return pat.across(c, k, cells)
    return [d for d in cells if len(d) == len(c) and any(s[:2] == pat.side(d, (k + 2) % 4)[:2] and s[2:] == pat.side(d, (k + 2) % 4)[2:] for s in pat.images(pat.side(c, k)))
            and not (d == c)]

def around(pat, c, p, cells):
    """same-size cells holding p (mod period) as a corner, reachable from c through sides that hold p"""
    P = pat.norm(p); comp = {c}; todo = [c]
    def holds(d, k):
        a, b = pat.corners(d)[k], pat.corners(d)[(k + 1) % 4]
        return P in (pat.norm(a), pat.norm(b))
    while todo:
        d = todo.pop()
        for k in range(4):
            if holds(d, k):
                for e in across(pat, d, k, cells):
                    if e not in comp: comp.add(e); todo.append(e)
    comp.discard(c)
    return comp

def chk_cells(env, mesh, pat, starts, flag=None, mk=None):
    by = {id(node(mesh, c)): c for c in pat.cells}
    for c in starts:
        cell = node(mesh, c); hes = cell.get_half_edges()
        for k, he in enumerate(hes):
            want = across(pat, c, k, pat.cells)
            r = cell.get_neighbors(he)
            rc = by.get(id(r)) if r is not None else None
            env.prove('neighbour across side', rc == (want[0] if want else None) and (r is None) == (rc is None), (c, k, rc))
            if rc is not None:
                back = [j for j, g in enumerate(r.get_half_edges()) if r.get_neighbors(g) is cell and g.twin() is he]
                env.prove('symmetric', len(back) == 1, (c, k, rc))
            if flag:
                r = cell.get_neighbors(he, flag=flag)
                if not want: env.prove('flagged: none', r is None, (c, k))
                elif r is None: env.prove('flagged: unmarked', Not(mk[want[0]]), (c, k))
                else: env.prove('flagged: marked', And(by.get(id(r)) == want[0], mk[want[0]]), (c, k))
        for k, v in enumerate(cell.get_vertices()):
            want = around(pat, c, pat.corners(c)[k], pat.cells)
            r = cell.get_neighbors(v)
            got = [by.get(id(x)) for x in r]
            env.prove('around vertex: right cells', set(got) == want, (c, k, got, sorted(want)))
            env.prove('around vertex: once each', len(got) == len(set(got)), (c, k, got))
            if flag:
                r = [by.get(id(x)) for x in cell.get_neighbors(v, flag=flag)]
                env.prove('around vertex flagged', And(*[Iff(w in r, mk[w]) for w in want]), (c, k, r))
                env.prove('around vertex flagged once', len(r) == len(set(r)) and set(r) <= want, (c, k, r))

def h_quad(env, nx=2, ny=2, per=(), k=2, maxd=2, first=(), flag=False, starts='all', coarse=False):
    mesh, pat, X = qmesh(env, nx, ny, per)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    mk = None
    if flag:
        # each cell marked or not, independently
        mk = {c: env.mark(node(mesh, c), 'f', 'm' + '_'.join(map(str, c))) for c in pat.cells}
        c = env.choice('start', pat.cells)
        chk_cells(env, mesh, pat, [c], 'f', mk)
    else: chk_cells(env, mesh, pat, pat.cells)

def h_gen(env, layout='pair', rot='any', order=None, k=1, maxd=2, first=(), flag=False, coarse=False):
    """meshes of general quadrilaterals: any connectivity and starting corners"""
    mesh, pat, X = gmesh(env, layout, rot, order=order)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, coarse=coarse)
    mk = None
    if flag:
        mk = {c: env.mark(node(mesh, c), 'f', 'm' + '_'.join(map(str, c))) for c in pat.cells}
        chk_cells(env, mesh, pat, [env.choice('start', pat.cells)], 'f', mk)
    else: chk_cells(env, mesh, pat, pat.cells)

def h_free(env):
    """a half-edge whose twin has no cell"""
    m = M('mesh')
    a, b = env.real('a'), env.real('b'); w, h = env.pos('w', .001), env.pos('h', .001)
    vs = [m.Vertex(p) for p in ((a, b), (a + w, b), (a + w, b + h), (a, b + h))]
    hes = [m.HalfEdge(vs[i], vs[(i + 1) % 4]) for i in range(4)]
    cell = m.QuadCell(hes); t = hes[1].make_twin()
    env.prove('no cell across', cell.get_neighbors(hes[1]) is None and cell.get_neighbors(hes[0]) is None)
    env.prove('no flagged cell across', cell.get_neighbors(hes[1], flag='f') is None and cell.get_neighbors(hes[0], flag='f') is None)
    env.prove('no cell around', all(cell.get_neighbors(v) == [] for v in vs))

def tasks(tier):
    th = tier != 'quick'
    T = []
    for n in (1, 2, 3) + ((4,) if th else ()):
        for per in (False, True):
            if per and n == 1: continue
            T.append(('h_int', dict(n=n, per=per, k=3 if n < 3 or th else 2)))
            T.append(('h_int', dict(n=n, per=per, k=2 if n < 3 or th else 1, sub=True, first=((0,), (n - 1,)) if n > 1 else ((0,),))))
    for ar in (3, 4):
        for n, per in ((1, False), (2, False), (2, True)):
            T.append(('h_int', dict(n=n, per=per, k=2 if n == 1 or th else 1, arity=ar, first=((0,),))))
            T.append(('h_int', dict(n=n, per=per, k=1, sub=True, arity=ar, first=((0,),))))
    for nx in (1, 2, 3):
        for ny in (1, 2, 3):
            for per in ((), (0,), (1,), (0, 1)):
                if (0 in per and nx == 1) or (1 in per and ny == 1): continue
                k = 3 if nx * ny <= 2 else (2 if nx * ny <= 4 else 1)
                if th: k = 3 if nx * ny <= 4 else 2
                T.append(('h_quad', dict(nx=nx, ny=ny, per=per, k=k)))
    for per in ((), (0,), (0, 1)):
        T.append(('h_quad', dict(nx=2, ny=2, per=per, k=1, first=((0,), (1,), (2,), (3,)))))
        T.append(('h_quad', dict(nx=2, ny=2, per=per, k=1, maxd=3, first=((0,), (1,), (0, 0), (1, 1), (3,), (2,), (3, 2)))))
        T.append(('h_quad', dict(nx=2, ny=2, per=per, k=0, flag=True)))
        T.append(('h_quad', dict(nx=2, ny=2, per=per, k=0, flag=True, first=((0,), (3,)))))
        if not per or th: T.append(('h_quad', dict(nx=2, ny=2, per=per, k=0, flag=True, first=((0,), (1,), (3,)))))
    T += [('h_quad', dict(nx=1, ny=1, k=1, first=((0,),), flag=True)), ('h_free', {})]
    for lay in ('pair', 'three', 'L', 'ring', 'touch'):
        T.append(('h_gen', dict(layout=lay, k=1 if lay in ('pair', 'touch') or th else 0)))
        T.append(('h_gen', dict(layout=lay, rot=(0, 1, 2, 3), k=2)))
        T.append(('h_gen', dict(layout=lay, rot=(3, 1, 0, 2), order=(1, 0, 3, 2) if lay == 'ring' else (1, 0, 2) if lay in ('three', 'L') else None, k=1, maxd=3, first=((0,), (1,), (0, 2), (1, 0)))))
        T.append(('h_gen', dict(layout=lay, rot=(2, 3, 1, 0), k=0, flag=True, first=((0,),) if lay in ('pair', 'touch') else ())))
    T += [('h_gen', dict(layout='five', rot=r, k=1)) for r in ((0, 0, 0, 0, 0), (0, 1, 2, 3, 1), (3, 0, 2, 1, 2))]
    T.append(('h_gen', dict(layout='five', rot=(1, 3, 0, 2, 0), first=((0,), (1,), (2,), (3,), (4,)), k=1)))
    for per in (False, True):
        T.append(('h_int', dict(n=2, per=per, k=3 if th else 2, first=((0,), (1,)), coarse=True)))
        T.append(('h_int', dict(n=2, per=per, k=2, first=((0,), (1,), (0, 1)), coarse=True)))
        T.append(('h_int', dict(n=2, per=per, k=1, first=((0,), (1,), (0, 1)), coarse=True, sub=True)))
    for nx, ny, per in ((1, 1, ()), (2, 1, ()), (2, 1, (0,)), (2, 2, ()), (2, 2, (0, 1))):
        fst = tuple((i,) for i in range(nx * ny))
        T.append(('h_quad', dict(nx=nx, ny=ny, per=per, k=3 if nx * ny == 1 or th else 2, first=fst, coarse=True)))
        T.append(('h_quad', dict(nx=nx, ny=ny, per=per, k=2, maxd=3, first=fst + ((0, 1), (nx * ny - 1, 0)), coarse=True)))
    T.append(('h_quad', dict(nx=2, ny=1, k=1, first=((0,), (1,), (0, 1), (1, 0)), coarse=True, flag=True)))
    for lay in ('pair', 'L', 'ring'):
        T.append(('h_gen', dict(layout=lay, rot=(3, 1, 0, 2), k=2, first=((0,), (1,)), coarse=True)))
        T.append(('h_gen', dict(layout=lay, rot=(0, 1, 2, 3), k=2 if th or lay == 'pair' else 1, maxd=3, first=((0,), (1,), (0, 2), (1, 0)), coarse=True)))
    return T
