"""M06: balancing."""
import numpy as np
from .common import M, And, Or, Not, Iff, Imp
from .meshu import Pat, node, grow, build, qmesh, imesh
from .genu import GPat, gmesh
from .M02 import chk_mesh
MODS = ['mesh']
BOUNDS = ('grids of up to 2x2 (3x2 thorough) cells on a symbolic box, all periodic settings, every history of up to 3-4 splits to depth 3 plus splits of fixed '
          'graded patterns up to depth 4, every nested sub-mesh of these, and three orders of the work list (a set, whose order is unspecified); meshes of general quadrilaterals on every affine box: two cells, an L, three or five cells around a vertex, a ring with a hole, cells numbered from any corner (all choices for the smaller ones), up to 2 splits and fixed deeper patterns; histories in which cells are also removed again (coarsening): up to 2 steps on top of fixed patterns')
OUTSIDE = 'deeper patterns; other work-list orders; QuadMesh.remove_supports (calls methods that do not exist; nothing calls it)'

class OSet(set):
    """a set whose pop order is fixed by a policy; the order of a real set is unspecified, so every policy is legitimate"""
    policy = 'fifo'
    def __init__(self, it=()):
        set.__init__(self); self.o = {}
        for x in it: self.add(x)
    def add(self, x):
        if x not in self: set.add(self, x); self.o[id(x)] = x
    def pop(self):
        k = [i for i, x in self.o.items() if set.__contains__(self, x)]
        if not k: return set.pop(self)
        i = {'fifo': 0, 'lifo': len(k) - 1, 'mid': len(k) // 2}[self.policy]
        x = self.o.pop(k[i]); set.discard(self, x); return x
    def update(self, *its):
        for it in its:
            for x in it: self.add(x)
    def remove(self, x): set.remove(self, x); self.o.pop(id(x), None)
    def discard(self, x): set.discard(self, x); self.o.pop(id(x), None)

def touching(pat, leaves):
    """pairs of leaves that share part of a side: (c, d)"""
    out = []; idx = {}
    if isinstance(pat, GPat): return [(c, d) for c in leaves for k in range(4) for d in leaves if pat.contact(c, k, d)]
    for d in leaves:
        for k in range(4):
            t = pat.side(d, k); idx.setdefault((t[0], t[1], k), []).append((t, d))
    for c in leaves:
        for k in range(4):
            for s in pat.images(pat.side(c, k)):
                for t, d in idx.get((s[0], s[1], (k + 2) % 4), ()):
                    if max(s[2], t[2]) < min(s[3], t[3]): out.append((c, d))
    return out

def closure(pat, split, leaves):
    """the coarsest 2:1 refinement of the given leaves"""
    leaves = set(leaves); split = set(split)
    while True:
        bad = [c for c, d in touching(pat, leaves) if len(d) - len(c) > 1]
        if not bad: return leaves, split
        c = min(bad, key=len)
        leaves.discard(c); split.add(c); leaves |= {c + (k,) for k in range(4)}

def balanced(pat, leaves): return not any(len(d) - len(c) > 1 for c, d in touching(pat, leaves))

def submesh(env, mesh, pat, deco=True):
    """choose a nested sub-mesh; returns its cells and leaves"""
    cells = {c for c in pat.cells if len(c) == 1}
    for c in sorted(pat.split_set, key=len):
        if c in cells and env.choice('sub%s' % '_'.join(map(str, c)), (True, False)): cells |= {c + (k,) for k in range(2 if pat.dim == 1 else 4)}
    for c in pat.cells:
        if c in cells: node(mesh, c).mark('sub')
    return cells

def h_bal(env, nx=2, ny=1, per=(), k=3, maxd=3, first=(), sub=False, order='fifo', among=None, layout=None, rot='any', coarse=False):
    m = M('mesh'); OSet.policy = order
    mesh, pat, X = qmesh(env, nx, ny, per) if layout is None else gmesh(env, layout, rot)
    nroot = len(pat.cells)
    for c in first: node(mesh, c).split(); pat.split(c)
    grow(env, pat, mesh, k, maxd, among=(lambda c: c[0] == among) if among is not None else None, coarse=coarse)
    kw = {}
    cells = set(pat.cells)
    if sub: cells = submesh(env, mesh, pat); kw = dict(subforest_flag='sub')
    leaves = {c for c in cells if c + (0,) not in cells}
    env.prove('balance test', bool(mesh.is_balanced(**kw)) == balanced(pat, leaves), sorted(leaves))
    old = m.__dict__.get('set')
    m.set = OSet
    try: mesh.balance(**kw)
    finally:
        if old is None: del m.set
        else: m.set = old
    want, _ = closure(pat, set(), leaves)
    # read the result back
    out = {}; stack = [((i,), mesh.cells.get_child(i)) for i in range(nroot)]; marked = set(); q = pat.fresh()
    while stack:
        c, n = stack.pop()
        if not sub or n.is_marked('sub'): marked.add(c); out[c] = n
        if n.has_children():
            q.split(c) if c in q.cells else env.fail('cells reachable')
            for j, ch in enumerate(n.get_children()): stack.append((c + (j,), ch))
    env.prove('rooted', all(c[:-1] in marked for c in marked if len(c) > 1))
    env.prove('all children or none', all(c[:-1] + (j,) in marked for c in marked if len(c) > 1 for j in range(4)))
    lv = {c for c in marked if c + (0,) not in marked}
    env.prove('2:1', balanced(pat, lv), sorted(lv))
    env.prove('only refines', all(any(c[:len(o)] == o for o in leaves) for c in lv))
    env.prove('no needless splits', lv == want, sorted(lv ^ want))
    env.prove('recognised as balanced', bool(mesh.is_balanced(**kw)) is True)
    env.prove('listed leaves', {id(n) for n in mesh.cells.get_leaves(**kw)} == {id(out[c]) for c in lv})
    if sub:
        env.prove('finer mesh kept', set(pat.cells) <= set(q.cells))
        env.prove('new cells are in the sub-mesh', set(q.cells) - set(pat.cells) <= marked)
    q.per = tuple(per); q.merged = getattr(pat, 'merged', False)
    if len(q.cells) > len(pat.cells): chk_mesh(env, mesh, q, X)
    n0 = len(q.cells)
    mesh.balance(**kw)
    env.prove('idempotent', len(list(mesh.cells.traverse())) == n0)

def tasks(tier):
    th = tier != 'quick'
    T = []
    F3 = ((0,), (0, 1), (0, 1, 1))
    for nx, ny in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for per in ((), (0,), (1,), (0, 1)):
            if (0 in per and nx == 1) or (1 in per and ny == 1): continue
            n = nx * ny
            k = {1: 4, 2: 4, 4: 4}[n]
            T.append(('h_bal', dict(nx=nx, ny=ny, per=per, k=k - (0 if th or n < 4 else 1), maxd=4 if th else 3, first=((0,),))))
            T.append(('h_bal', dict(nx=nx, ny=ny, per=per, k=1, maxd=4, first=((0,), (0, 2), (0, 2, 2)))))
            T.append(('h_bal', dict(nx=nx, ny=ny, per=per, k=1, maxd=4, first=((0,), (0, 0), (0, 0, 0)), order='mid')))
            T.append(('h_bal', dict(nx=nx, ny=ny, per=per, k=1 if n < 4 else (1 if th else 0), maxd=3, first=F3, sub=True)))
            T.append(('h_bal', dict(nx=nx, ny=ny, per=per, k=0, maxd=3, first=((0,), (0, 2), (0, 2, 2), (n - 1,)) if n > 1 else F3, sub=True, order='lifo')))
    T.append(('h_bal', dict(nx=2, ny=1, k=2, maxd=4, first=F3, order='lifo')))
    T.append(('h_bal', dict(nx=2, ny=2, k=2 if th else 1, maxd=4, first=((3,), (3, 0), (3, 0, 0)), order='mid')))
    T.append(('h_bal', dict(nx=2, ny=1, k=1, maxd=5, first=((0,), (0, 1), (0, 1, 1), (0, 1, 1, 2)))))
    T.append(('h_bal', dict(nx=3, ny=1, k=1, maxd=4, first=((0,), (0, 1), (0, 1, 1), (2,), (2, 0), (2, 0, 3)), order='lifo')))
    T.append(('h_bal', dict(nx=3, ny=2, per=(0, 1) if not th else (), k=1, maxd=4, first=((0,), (0, 0), (0, 0, 0)))) if False else ('h_bal', dict(nx=3, ny=2, per=(0,), k=1, maxd=4, first=((0,), (0, 0), (0, 0, 0)))))
    for lay in ('pair', 'three', 'L', 'ring'):
        T.append(('h_bal', dict(layout=lay, k=0, first=F3)))
        T.append(('h_bal', dict(layout=lay, rot=(0, 1, 2, 3), k=2 if lay == 'pair' else 1, maxd=3, first=F3[:2], order='lifo')))
        T.append(('h_bal', dict(layout=lay, rot=(3, 1, 0, 2), k=1, maxd=4, first=((1,), (1, 2), (1, 2, 2)), order='mid')))
        T.append(('h_bal', dict(layout=lay, rot=(2, 3, 1, 0), k=0, first=((0,), (1,), (0, 1), (0, 1, 1), (0, 2), (0, 2, 0)), sub=True)))
    T.append(('h_bal', dict(layout='five', rot=(0, 1, 2, 3, 1), k=1 if th else 0, maxd=3, first=((0,), (0, 0), (3,)))))
    T.append(('h_bal', dict(nx=2, ny=1, k=0, first=((0,), (1,), (0, 1), (0, 1, 1), (0, 1, 2), (1, 2), (1, 2, 3)), sub=True)))
    T.append(('h_bal', dict(nx=2, ny=1, per=(0,), k=0, first=((0,), (1,), (0, 0), (0, 0, 0), (0, 1), (1, 1), (1, 1, 1)), sub=True, order='lifo')))
    for nx, ny, per in ((1, 1, ()), (2, 1, ()), (2, 1, (0,)), (2, 2, (0, 1)), (2, 2, ())):
        n = nx * ny
        T.append(('h_bal', dict(nx=nx, ny=ny, per=per, k=3 if n == 1 or th else 2, maxd=3, first=((0,), (0, 1), (0, 1, 1)) + (((1,), (1, 0), (1, 0, 3)) if n > 1 else ()), coarse=True)))
        T.append(('h_bal', dict(nx=nx, ny=ny, per=per, k=2 if th or n < 4 else 1, maxd=3, first=tuple((i,) for i in range(n)) + tuple((i, j) for i in range(min(n, 2)) for j in range(4)), coarse=True, order='lifo')))
    T.append(('h_bal', dict(nx=2, ny=1, k=1, maxd=3, first=((0,), (1,), (0, 1), (1, 0), (1, 3), (1, 3, 0)), coarse=True, sub=True)))
    for lay in ('pair', 'L', 'ring'):
        T.append(('h_bal', dict(layout=lay, rot=(3, 1, 0, 2), k=2 if th else 1, maxd=3, first=((0,), (0, 1), (0, 1, 1), (1,), (1, 3), (1, 0)), coarse=True)))
    return T
