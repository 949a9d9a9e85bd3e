"""S02: solving again (new loads, several columns, new matrix or boundary data, with or without factorisation) equals solving a fresh system."""
import numpy as np
from fractions import Fraction as Fr
from .common import M
from .asmu import *
from .solu import *
from .S01 import bfun, rhs, fe_pattern, local_form
MODS = ['mesh', 'fem', 'function', 'assembler', 'solver']
BOUNDS = ('one LinearSystem per history: a first solve, then 1-3 operations (solve again; new load by set_rhs, by solve_system(b), by invert_matrix(b) + resolve_constraints; two-column load; '
          'new matrix; new values on the Dirichlet boundary; further Dirichlet boundary), in every order, each followed by a solve with or without factorisation; arbitrary real matrices, '
          'loads and boundary data; interval meshes of 2 roots (Q1, Q2), a sub-mesh after up to 2 splits, 2x1 quadrilaterals with one refined root (hanging nodes, matrices with the sparsity '
          'of Q1); Assembler: arbitrary local matrices/vectors with 2 samples, second solve after new or further Dirichlet data, hanging nodes added, other matrix/vector sample')
OUTSIDE = 'finer meshes; longer histories; refinement between solves (a new space); sparse LU/Cholesky themselves (stubs: any solution of the linear equations)'
TASK_S = 200; PATH_S = 90

@balanced_only
def h_again(env, dim=1, nx=1, ny=None, k=0, first=(), el='Q1', ops=(), steps=2, sub=None, sym=False, pat='full', bk='num', factor='both', g0='one', groups='one', maxd=2, ncol=2):
    """a LinearSystem, then `steps` operations out of `ops`, each followed by a solve that is checked on its own"""
    D = Dom(env, dim, nx, ny, (), k, first, unit=True, maxd=maxd, subs=(sub,) if sub else ()); F = Fe(D, el, sub)
    LS = M('solver').LinearSystem; b = F.basis(); n = len(F.dofs())
    m0 = mark_bnd(env, D, 'B0', 'm0_', g0); m1 = mark_bnd(env, D, 'B1', 'm1_', groups) if any(o == 'dir1' for o in ops) else {}
    pt = fe_pattern(F) if pat == 'fe' else None
    conds = {}; nb = [0]
    def cond(S, lab, ms):
        i = nb[0]; nb[0] += 1; a, at = bfun(env, D, F, bk, 'g%d' % i)
        S.add_dirichlet_constraint(lab, a)
        for g, x in dir_dofs(F, ms).items(): conds[g] = at(g, x)
    S = LS(b); cond(S, 'B0', m0)
    A = Mat(env, n, 'a0_', sym, pt); S.set_matrix(A.coo()); syms = A.syms()
    hang = hanging(F)
    v, rb = rhs(env, n, 1, 'b0_'); S.set_rhs(rb); cols = 1
    for t in range(steps + 1):
        f = env.bit('f%d' % t) if factor == 'both' else factor
        f = bool(f); low = False
        if t:
            op = env.choice('op%d' % t, list(ops))
            if op in ('set', 'arg', 'cols', 'inv'):
                cols = ncol if op == 'cols' else 1; v, rb = rhs(env, n, cols, 'b%d_' % t)
                if op in ('set', 'cols'): S.set_rhs(rb)
            elif op == 'mat': A = Mat(env, n, 'a%d_' % t, sym, pt); S.set_matrix(A.coo('csr')); syms = syms + A.syms()
            elif op == 'dir0': cond(S, 'B0', m0)
            elif op == 'dir1': cond(S, 'B1', m1)
            elif op == 'same': pass
        else: op = 'same'
        C = Cons(F, conds, hang); C.regular(env, A.a)
        if env.symbolic: env.ctx.lin_eqs.clear(); env.ctx.lin_singles.clear()
        if op == 'arg': S.solve_system(rb, factor=f)
        elif op == 'inv': S.invert_matrix(rb, factor=f); S.resolve_constraints()
        else: S.solve_system(factor=f)
        duty = Duty(env, lambda: syms)
        u = S.get_solution(as_function=False)
        env.prove('shape', np.shape(u) == (n, cols), np.shape(u))
        if np.shape(u) != (n, cols): return
        for c in range(cols): C.check(duty, 'after %s: ' % op, [u[i, c] for i in range(n)], A.a, [v[i][c] for i in range(n)])
        if t == 0: first_u = [u[i, 0] for i in range(n)]; kept = u
    # the constraints imposed on any other vector
    y = np.empty((n, cols), dtype=object if env.symbolic else float)
    for i in np.ndindex(y.shape): y[i] = env.real('y%d_%d' % i)
    y0 = y.copy(); r = S.resolve_constraints(x=y)
    env.eq('given vector kept', y, y0); env.eq('solution kept', S.get_solution(as_function=False), u)
    for c in range(cols):
        for g in F.dofs():
            i = C.pos[g]
            if g in C.dir: duty.same('constrained vector: Dirichlet value', r[i, c], C.dir[g])
            elif g in C.hang: duty.same('constrained vector: hanging node', r[i, c], sum((r[C.pos[h], c] * num(env, w) for h, w in C.hang[g]), 0))
            else: duty.same('constrained vector: free', r[i, c], y0[i, c])
    env.eq('earlier solutions are kept', kept[:, 0], np.array(first_u, dtype=object if env.symbolic else float))

@balanced_only
def h_asm(env, dim=1, nx=1, ny=None, k=0, first=(), el='Q1', maxd=2, bk='num', groups='one', ops=('same', 'dir0', 'dir1', 'im', 'iv', 'hang', 'refine')):
    """an Assembler, used again after an operation"""
    D = Dom(env, dim, nx, ny, (), k, first, unit=True, maxd=maxd); F = Fe(D, el)
    asm = M('assembler'); n = len(F.dofs()); L = D.leaves()
    m0 = mark_bnd(env, D, 'B0', 'm0_', groups); m1 = mark_bnd(env, D, 'B1', 'm1_', groups)
    bf, A, syms = local_form(env, F, L, 'bilinear', 'a', 2); lf, b, _ = local_form(env, F, L, 'linear', 'b', 2)
    S = asm.Assembler([bf, lf], D.mesh, n_gauss=(1, 1)); hang = hanging(F); conds = {}; nb = [0]; ho = False
    def cond(lab, ms):
        i = nb[0]; nb[0] += 1; a, at = bfun(env, D, F, bk, 'g%d' % i)
        S.add_dirichlet(lab, a)
        for g, x in dir_dofs(F, ms).items(): conds[g] = at(g, x)
    cond('B0', m0); im = iv = 0
    for t in range(2):
        if t:
            op = env.choice('op', [o for o in ops if o != 'refine'])
            if op == 'dir0': cond('B0', m0)
            if op == 'dir1': cond('B1', m1)
            if op == 'hang': S.add_hanging_nodes(); ho = True
            if op == 'im': im = 1
            if op == 'iv': iv = 1
        else: op = 'first'
        C = Cons(F, conds, hang if ho else {}); C.regular(env, A[im])
        if op not in ('im', 'iv'): S.assemble()
        if env.symbolic: env.ctx.lin_eqs.clear(); env.ctx.lin_singles.clear()
        u = S.solve(i_matrix=im, i_vector=iv)
        duty = Duty(env, lambda: syms)
        env.prove('shape', np.shape(u) == (n,), np.shape(u))
        C.check(duty, 'after %s: ' % op, [u[i] for i in range(n)], A[im], b[iv])
        # what the assembler says about its constraints
        dd, dv = S.get_dirichlet(asdict=False)
        env.prove('Dirichlet dofs', sorted(map(int, dd)) == sorted(conds) == sorted(map(int, S.get_dofs('dirichlet'))), (sorted(conds), list(dd)))
        for g, x in zip(dd, dv): duty.same('Dirichlet values', np.ravel(x)[0], conds[int(g)])
        env.prove('hanging dofs', sorted(map(int, S.get_dofs('hanging_nodes'))) == sorted(hang if ho else ()), list(S.get_dofs('hanging_nodes')))
        env.prove('free dofs', list(map(int, S.get_dofs('interior'))) == sorted(C.free), (list(S.get_dofs('interior')), C.free))

def tasks(tier):
    T = []; th = tier != 'quick'
    def add(**c): T.append(('h_again', c))
    R = ('same', 'set', 'arg', 'cols', 'inv'); C = ('mat', 'dir0', 'dir1', 'set')
    I = dict(dim=1, nx=2)
    for s in (False, True):
        add(**I, ops=R, steps=2, sym=s)
        for f in (False, True): add(**I, ops=C, steps=2, sym=s, factor=f, **(dict(g0=(0,)) if f and not s and not th else {}))
        add(**I, ops=C, steps=1, sym=s); add(**I, ops=('mat', 'inv'), steps=2, sym=s)
        add(**I, ops=('mat', 'dir1', 'cols', 'inv'), steps=3, sym=s, factor=s, g0=(0,))
    add(**I, ops=R + C[:3], steps=2, el='Q2', bk='poly', factor=False)
    add(dim=1, nx=1, first=((0,),), k=1, ops=R + C[:3], steps=1, sub='sub', bk='nodal', g0=(0, 1))
    Q = dict(dim=2, nx=2, ny=1, first=((0,),), pat='fe')
    for f in (False, True):
        add(**Q, ops=R, steps=1, bk='poly', g0=(0, 4), factor=f); add(**Q, ops=C, steps=1, bk='poly', g0=(4,), groups='line' if th else (0, 2), factor=f, sym=f)
        add(**Q, ops=('mat', 'cols', 'dir1'), steps=2, factor=f, sym=f, g0=(4,), groups=(0, 2))
    add(**Q, ops=('cols', 'mat'), steps=2, g0=(0, 1), sym=True)
    add(**I, ops=('cols', 'mat'), steps=2, g0=(0,), ncol=4)
    if th:
        add(**I, ops=R + C[:3], steps=3, factor=False); add(**I, ops=C, steps=3, sym=True, factor=True); add(**Q, ops=R + C[:3], steps=2, bk='poly', g0=(0, 4), factor=False)
        add(dim=2, nx=2, ny=1, k=1, pat='fe', ops=R + C[:3], steps=1, g0=(0,), groups='one', factor=False)
        add(dim=2, nx=2, ny=1, first=((0,),), k=1, pat='fe', ops=('mat', 'cols'), steps=1, sub='sub', g0=(0,), factor=False)
        T.append(('h_asm', dict(dim=2, nx=2, ny=2, k=1))); T.append(('h_asm', dict(dim=2, nx=1, ny=1, el='Q2', bk='poly')))
    T.append(('h_asm', dict(dim=1, nx=2, k=1))); T.append(('h_asm', dict(dim=1, nx=2, el='Q2', bk='poly')))
    T.append(('h_asm', dict(dim=2, nx=2, ny=1, first=((0,),), bk='poly'))); T.append(('h_asm', dict(dim=2, nx=2, ny=1, k=1)))
    return T
