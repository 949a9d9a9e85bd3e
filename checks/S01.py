"""S01: solving a constrained linear system meets the constraints and the projected equations."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, spoly, poly_deg
from .asmu import *
from .solu import *
MODS = ['mesh', 'fem', 'function', 'assembler', 'solver']
BOUNDS = ('LinearSystem and Assembler.solve on interval meshes of 1-2 roots with up to 2 splits (Q1, Q2, Q3) and quadrilateral meshes of 1x1 to 2x2 roots with up to 1 split (Q1; Q2 on '
          'up to 2x1 with the sparsity of the element), periodic or not, whole mesh and every rooted sub-mesh of some; every choice of marked boundary pieces (2D: one root edge, or whole sides) or marked '
          'lines between roots; Dirichlet data zero, constant, polynomial, nodal; one or two columns; matrices and loads with arbitrary real entries (symmetric or not; '
          'Assembler: arbitrary local matrices and vectors, up to 2 samples); coo/csr/csc input; factored or not; constraints before or after matrix and load')
OUTSIDE = ('finer meshes; triangles; discontinuous elements; sparse LU/Cholesky themselves (stubs: any solution of the linear equations; Cholesky reads the lower triangle and may refuse); '
           'rounding and conditioning; Assembler.interpolate and restrict (call methods that do not exist)')
TASK_S = 200; PATH_S = 90

def bfun(env, D, F, kind, name):
    """Dirichlet function: (argument of the API, value at a pattern position/dof)"""
    fn = M('function'); dim = D.dim
    if kind == 'zero': return 0, lambda g, x: 0
    if kind == 'num':
        v = env.real(name); return v, lambda g, x: v
    if kind == 'const':
        v = env.real(name); return fn.Constant(v), lambda g, x: v
    if kind == 'poly':
        q = spoly(env, name, poly_deg(dim, 1))
        return fn.Explicit((lambda x: q(x[:, 0])) if dim == 1 else (lambda x: q(x[:, 0], x[:, 1])), dim=dim), lambda g, x: q(*D.X(x))
    if kind in ('nodal', 'nodal1'):
        G = F if kind == 'nodal' else Fe(D, 'Q1', F.flag)
        ds = G.dofs(); b = G.basis(); row = {g: int(b.d2i(g)) for g in ds}
        vals = [env.real('%s_%d' % (name, i)) for i in range(len(ds))]
        data = np.empty((len(ds), 1), dtype=object if env.symbolic else float)
        for i, v in enumerate(vals): data[i, 0] = v
        f = fn.Nodal(data=data, basis=b)
        if kind == 'nodal': return f, lambda g, x: vals[row[g]]
        def at(g, x):
            for c in D.leaves(F.flag):
                bx = D.pat.box(c)
                if all(lo <= v <= hi for v, (lo, hi) in zip(x, bx)):
                    r = 0
                    for j, h in enumerate(G.gd(c)):
                        w = Fr(1)
                        for a, p in enumerate(G.fun(c, j)): w *= peval(p, x[a])
                        if w: r = r + vals[row[h]] * num(env, w)
                    return r
        return f, at
    raise ValueError(kind)

def rhs(env, n, cols, name, form='array'):
    v = [[env.real('%s_%d_%d' % (name, i, c)) for c in range(cols)] for i in range(n)]
    a = np.empty((n, cols), dtype=object if env.symbolic else float)
    for i in range(n):
        for c in range(cols): a[i, c] = v[i][c]
    if form == 'flat': a = a[:, 0]
    if form == 'sparse': a = M('solver').sparse.csc_matrix(a)
    return v, a

def fe_pattern(F):
    """pairs of dofs sharing a cell"""
    pos = {g: i for i, g in enumerate(F.order())}
    return {(pos[g], pos[h]) for c in F.D.leaves(F.flag) for g in F.gd(c) for h in F.gd(c)}

@balanced_only
def h_system(env, dim=1, nx=1, ny=None, k=0, first=(), per=(), el='Q1', bc=(('zero', None),), sub=None, subs=(), cols=1, factor=False, sym=False, fmt='coo', rform='array', how='late', twin=False, fn=False, pat='full', inner=False, maxd=2):
    """one LinearSystem; bc: (kind of the Dirichlet function, marking of its boundary)"""
    D = Dom(env, dim, nx, ny, per, k, first, unit=True, maxd=maxd, subs=sorted({f for f in (sub,) + tuple(subs) if f})); F = Fe(D, el, sub)
    LS = M('solver').LinearSystem; b = F.basis(); n = len(F.dofs())
    ms = [mark_bnd(env, D, 'B%d' % i, 'm%d_' % i, g, inner) for i, (_, g) in enumerate(bc)]
    fs = [bfun(env, D, F, kd, 'g%d' % i) for i, (kd, _) in enumerate(bc)]
    ob = dict(on_boundary=False) if inner else {}; dirv = {}; 
    for m, (_, at) in zip(ms, fs):
        for g, x in dir_dofs(F, m).items():
            dirv[g] = at(g, x)
    C = Cons(F, dirv)
    A = Mat(env, n, 'a', sym, fe_pattern(F) if pat == 'fe' else None); C.regular(env, A.a)
    v, rb = rhs(env, n, cols, 'b', rform)
    Am = A.coo(fmt)
    for f in subs:       # systems on other sub-meshes of the same space
        LS(F.basis(flag=f) if f != 'whole' else F.basis(flag=None))
    if how == 'late':
        S = LS(b)
        for i, (a, _) in enumerate(fs): S.add_dirichlet_constraint('B%d' % i, a, **ob)
        S.set_matrix(Am); S.set_rhs(rb)
    else: S = LS(b, A=Am, b=rb)
    if twin:             # another system on the same basis, with its own boundary data
        S2 = LS(b)
        for i, (kd, _) in enumerate(bc): S2.add_dirichlet_constraint('B%d' % i, 5)
    if how != 'late':
        for i, (a, _) in enumerate(fs): S.add_dirichlet_constraint('B%d' % i, a, **ob)
    if twin == 'solved': S2.set_matrix(Am); S2.set_rhs(rb); S2.solve_system(factor=factor)
    if env.symbolic: env.ctx.lin_eqs.clear(); env.ctx.lin_singles.clear()
    if how == 'arg': S.set_rhs(None); S.solve_system(rb, factor=factor)
    else: S.solve_system(factor=factor)
    duty = Duty(env, A.syms)
    u = S.get_solution(as_function=False)
    env.prove('shape', np.shape(u) == (n, cols), np.shape(u))
    if np.shape(u) != (n, cols): return
    for c in range(cols): C.check(duty, '', [u[i, c] for i in range(n)], A.a, [v[i][c] for i in range(n)])
    duty.regular('the constrained system is regular', lambda: A.pins2([C.pos[f] for f in C.free]))
    A.unchanged('matrix of the caller unchanged', Am)
    if fn:
        f = S.get_solution()
        env.eq('as a function', np.asarray(f.data()).reshape(n, cols), u)
        env.prove('of the basis', f.basis() is b or f.basis().same_dofs(b))

def bbase(i, j, n, c=0, s=0):
    return Fr(n + 3 + s) + Fr(c * (i + 1), 4) if i == j else Fr((3 * i + 5 * j + 2 * c + 3 * s) % 7 - 3, 8)

def local_form(env, F, cells, kind, name, ns=1):
    """a form whose local matrices/vectors are arbitrary; returns (form, entries[s])"""
    asm, fn = M('assembler'), M('function'); nl = F.e.n_dofs(); tab = {}; syms = []
    b = F.basis(); n = len(F.dofs()); pos = {g: i for i, g in enumerate(F.order())}
    tot = [[[0] * n for _ in range(n)] if kind == 'bilinear' else [0] * n for _ in range(ns)]
    for ci, c in enumerate(cells):
        shape = (nl, nl, ns) if kind == 'bilinear' else (nl, ns)
        a = np.empty(shape, dtype=object if env.symbolic else float); dc = F.gd(c)
        for s in range(ns):
            for i in range(nl):
                if kind == 'linear':
                    v = env.real('%s%d_%d_%d' % (name, ci, i, s)); a[i, s] = v; tot[s][pos[dc[i]]] = tot[s][pos[dc[i]]] + v; continue
                for j in range(nl):
                    x = env.real('%s%d_%d_%d_%d' % (name, ci, i, j, s)); syms.append(x); v = x + num(env, bbase(i, j, nl, ci, s))
                    a[i, j, s] = v; tot[s][pos[dc[i]]][pos[dc[j]]] = tot[s][pos[dc[i]]][pos[dc[j]]] + v
        tab[node(F.D.mesh, c)] = a
    zero = 0 * next(iter(tab.values()))
    class LocalForm(asm.Form):
        def eval(self, cell, *args, **kw): return tab.get(cell, zero).copy()
    kw = dict(test=b) if kind == 'linear' else dict(test=b, trial=b)
    return LocalForm(kernel=asm.Kernel(fn.Constant(np.ones(ns))), **kw), tot, syms

def vertex_dofs(F, bits):
    """dofs at the marked vertices"""
    return {g: x for g, x, c in dofpoints(F, F.D.leaves(F.flag)) if x in bits and bool(bits[x])}

def mark_verts(env, D, label, name):
    """mark the boundary vertices of the root cells (corner points)"""
    bits = {}; done = set()
    for c in D.pat.cells:
        bx = D.pat.box(c); nd = node(D.mesh, c)
        for k, v in enumerate(nd.get_vertices()):
            x = (bx[0][k in (1, 2)], bx[1][k in (2, 3)])
            if not any(x[a] in (0, n) for a, n in enumerate((D.pat.nx, D.pat.ny))): continue
            if any(t.denominator != 1 for t in map(Fr, x)): continue
            if x not in bits: bits[x] = env.bit('%s_%s_%s' % ((name,) + x))
            if x not in done: done.add(x); env.markall([v], label, bits[x])
    return bits

@balanced_only
def h_asm(env, dim=1, nx=1, ny=None, k=0, first=(), per=(), el='Q1', bc=(('zero', None),), sub=None, hang=True, ns=1, nb=1, iv=0, im=0, part=False, mark='half_edge', again=False, inner=False, maxd=2):
    """Assembler.solve; part: the load lives on one cell only"""
    D = Dom(env, dim, nx, ny, per, k, first, unit=True, maxd=maxd, subs=(sub,) if sub else ()); F = Fe(D, el, sub)
    asm = M('assembler'); n = len(F.dofs()); L = D.leaves(sub)
    if mark == 'vertex': ms = [mark_verts(env, D, 'B%d' % i, 'm%d_' % i) for i in range(len(bc))]
    else: ms = [mark_bnd(env, D, 'B%d' % i, 'm%d_' % i, g, inner) for i, (_, g) in enumerate(bc)]
    fs = [bfun(env, D, F, kd, 'g%d' % i) for i, (kd, _) in enumerate(bc)]
    ob = dict(on_bnd=False) if inner else {}; dirv = {}
    for m, (_, at) in zip(ms, fs):
        for g, x in (vertex_dofs if mark == 'vertex' else dir_dofs)(F, m).items(): dirv[g] = at(g, x)
    C = Cons(F, dirv, None if hang else {})
    bf, A, syms = local_form(env, F, L, 'bilinear', 'a', ns); lf, b, _ = local_form(env, F, L[:1] if part else L, 'linear', 'b', nb)
    C.regular(env, A[im])
    S = asm.Assembler([bf, lf], D.mesh, subforest_flag=sub, n_gauss=(1, 1))
    for i, (a, _) in enumerate(fs): S.add_dirichlet('B%d' % i, a, **ob)
    if hang: S.add_hanging_nodes()
    for _ in range(2 if again else 1): S.assemble()
    u = S.solve(i_matrix=im, i_vector=list(iv) if isinstance(iv, tuple) else iv)
    duty = Duty(env, lambda: syms)
    cols = iv if isinstance(iv, tuple) else (iv,)
    want = (n, len(cols)) if isinstance(iv, tuple) else (n,)
    env.prove('shape', np.shape(u) == want, np.shape(u))
    if np.shape(u) != want: return
    for c, j in enumerate(cols): C.check(duty, '', [u[i, c] if isinstance(iv, tuple) else u[i] for i in range(n)], A[im], b[j])

def tasks(tier):
    T = []; th = tier != 'quick'
    def add(**c): T.append(('h_system', c))
    P = (('poly', None),)
    for el in ('Q1', 'Q2', 'Q3'):
        for bc in ((('zero', None),), P, (('nodal', None),)):
            add(dim=1, nx=1, k=0, el=el, bc=bc); 
            if el != 'Q3': add(dim=1, nx=2, k=1, el=el, bc=bc)
    add(dim=1, nx=2, k=2, el='Q1', bc=P)
    add(dim=1, nx=2, k=1, el='Q1', bc=(('num', 'one'), ('const', 'one')), fn=True)
    add(dim=1, nx=2, k=1, el='Q1', bc=P, cols=2, fn=True)
    for fmt in ('csr', 'csc'): add(dim=1, nx=2, k=1, el='Q1', bc=P, fmt=fmt, rform='flat' if fmt == 'csr' else 'sparse')
    for how in ('early', 'arg'): add(dim=1, nx=2, k=1, el='Q1', bc=P, how=how)
    for tw in ('added', 'solved'): add(dim=1, nx=1, k=1, el='Q1', bc=P, twin=tw); add(dim=1, nx=1, k=1, el='Q1', bc=P, twin=tw, how='early')
    for sym in (False, True):
        for cols in (1, 2): add(dim=1, nx=1, k=1, el='Q1', bc=P, factor=True, sym=sym, cols=cols)
    add(dim=1, nx=1, k=1, first=((0,),), el='Q1', bc=P, sub='sub')
    add(dim=1, nx=1, k=1, first=((0,),), el='Q2', bc=P, sub='sub')
    add(dim=1, nx=2, k=1, el='Q1', bc=P, per=(0,), )
    # Assembler.solve
    def asm(**c): T.append(('h_asm', c))
    asm(dim=1, nx=2, k=1, bc=P); asm(dim=1, nx=2, k=1, el='Q2', bc=P); asm(dim=1, nx=2, k=1, bc=(('nodal', None),)); asm(dim=1, nx=2, k=1, bc=(('num', 'one'), ('const', 'one')), again=True)
    asm(dim=1, nx=2, k=1, bc=P, hang=False); asm(dim=1, nx=1, k=1, first=((0,),), bc=P, sub='sub'); asm(dim=1, nx=1, k=1, first=((0,),), el='Q2', bc=(('nodal', None),), sub='sub')
    asm(dim=1, nx=2, bc=P, ns=2, nb=2, iv=1, im=1); asm(dim=1, nx=2, bc=P, ns=2, nb=2, iv=(1, 0)); asm(dim=1, nx=3, bc=P, part=True); asm(dim=1, nx=2, k=1, bc=P, per=(0,))
    for bk in ('zero', 'num', 'poly', 'nodal'): asm(dim=2, nx=1, ny=1, bc=((bk, None),)); asm(dim=2, nx=2, ny=1, k=1, bc=((bk, 'one'),))
    asm(dim=2, nx=2, ny=1, k=1, bc=(('poly', 'one'),), hang=False); asm(dim=2, nx=2, ny=2, k=1, bc=(('poly', 'one'),)); asm(dim=2, nx=2, ny=2, k=1, bc=(('num', 'one'),), per=(0,))
    asm(dim=2, nx=2, ny=1, bc=(('poly', None),), mark='vertex'); asm(dim=2, nx=1, ny=1, el='Q2', bc=(('poly', None),), mark='vertex')
    asm(dim=2, nx=1, ny=1, el='Q2', bc=(('poly', 'line'),)); asm(dim=2, nx=2, ny=1, k=0, first=((0,),), el='Q2', bc=(('poly', 'one'),))
    asm(dim=2, nx=2, ny=1, first=((0,),), bc=(('poly', 'one'),), sub='sub'); asm(dim=2, nx=2, ny=1, k=1, bc=(('poly', 'one'),), part=True); asm(dim=2, nx=2, ny=1, k=1, bc=(('poly', 'one'),), nb=2, iv=(0, 1))
    for inn in (dict(dim=1, nx=2, k=1), dict(dim=2, nx=2, ny=1, k=1), dict(dim=2, nx=2, ny=1, k=1, el='Q2', pat='fe')):
        add(**inn, **({} if 'el' in inn else dict(el='Q1')), bc=P, inner=True)
        asm(**{a: b for a, b in inn.items() if a != 'pat'}, bc=P, inner=True)
    # quadrilaterals
    for el in ('Q1', 'Q2'):
        for bc in ((('zero', 'line'),), (('poly', 'line'),), (('nodal', 'line'),)):
            add(dim=2, nx=1, ny=1, k=0, el=el, bc=bc)
            add(dim=2, nx=2, ny=1, k=1, el=el, bc=((bc[0][0], 'line' if el == 'Q1' else 'one'),), pat='full' if el == 'Q1' else 'fe')
    add(dim=2, nx=2, ny=1, k=1, el='Q1', bc=(('nodal1', None),))
    add(dim=2, nx=2, ny=1, k=1, el='Q1', bc=(('poly', 'one'),), cols=2)
    add(dim=2, nx=2, ny=1, k=1, el='Q1', bc=(('poly', 'one'),), factor=True, sym=True)
    for how in ('late', 'early'): add(dim=2, nx=2, ny=1, k=1, el='Q1', bc=(('poly', 'one'),), twin='added', how=how)
    add(dim=2, nx=2, ny=1, k=0, first=((0,),), el='Q1', bc=(('poly', 'one'),), sub='sub')
    add(dim=2, nx=2, ny=1, k=0, first=((0,),), el='Q1', bc=(('poly', 'one'),), sub='sub', subs=('whole',))
    add(dim=2, nx=2, ny=1, k=0, first=((0,),), el='Q1', bc=(('poly', 'one'),), sub=None, subs=('sub',))
    add(dim=2, nx=2, ny=2, k=1, el='Q1', bc=(('poly', 'one'),))
    add(dim=2, nx=2, ny=2, k=1, el='Q1', bc=(('num', 'one'),), per=(0,))
    # more samples and columns; several hanging edges of one cell
    asm(dim=1, nx=2, bc=P, ns=3, nb=3, iv=2, im=2); asm(dim=1, nx=2, bc=P, ns=3, nb=3, iv=(2, 0, 1), im=1); add(dim=1, nx=1, k=1, el='Q1', bc=P, cols=3)
    for f in (((1,), (2,)), ((0,), (1,), (2,))):
        asm(dim=2, nx=2, ny=2, first=f, bc=(('poly', 'one'),)); add(dim=2, nx=2, ny=2, k=0, first=f, el='Q1', bc=(('poly', 'one'),), pat='fe')
    if th:
        add(dim=2, nx=2, ny=2, k=1, el='Q1', bc=(('poly', 'line'),), pat='fe'); add(dim=2, nx=2, ny=1, k=2, el='Q1', bc=(('poly', 'one'),), pat='fe')
        add(dim=1, nx=2, k=3, el='Q1', bc=P, maxd=3); add(dim=1, nx=2, k=2, el='Q2', bc=P); add(dim=2, nx=2, ny=2, k=0, first=((0,),), el='Q2', bc=(('poly', 'one'),), pat='fe')
        add(dim=2, nx=2, ny=1, first=((0,),), k=1, el='Q1', bc=(('poly', 'one'),), sub='sub', pat='fe'); add(dim=2, nx=1, ny=1, el='Q3', bc=(('poly', 'line'),), pat='fe')
        asm(dim=2, nx=2, ny=2, k=2, bc=(('poly', 'one'),)); asm(dim=2, nx=2, ny=1, k=1, first=((0,),), bc=(('nodal', 'one'),), sub='sub'); asm(dim=2, nx=2, ny=1, k=1, el='Q2', bc=(('poly', 'one'),))
    return T
