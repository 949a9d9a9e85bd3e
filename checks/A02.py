"""A02: assembled scalars, vectors and matrices are the exact integrals they stand for, paired with the right degrees of freedom."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, spoly, poly_deg, any_sym
from .asmu import *
MODS = ['mesh', 'fem', 'function', 'assembler']
BOUNDS = ('interval meshes of 2-3 roots and quadrilateral meshes of 2x1 roots on a symbolic box (thorough: 2x2), every 2:1 balanced history of 1-2 splits (depth 2), '
          'periodic or not, whole mesh and every rooted sub-mesh; elements DQ0, Q1-Q3, DQ1, DQ2 and pairs of different ones; trial/test derivatives of order 0-2; constant, '
          'linear and bilinear forms with constant, polynomial (degree 1 per variable), nodal (arbitrary data, Q1/Q2/DQ1) kernels, their derivatives, products and '
          'sums, metafunctions of several functions and of the cell, shape functions and dofs; forms over cells, edges and points side by side (1x1-2x1, up to 1 split); rules of different order for cells and edges; all coefficients, nodal values and the box symbolic; quadrature of 1-5 points per direction (other sizes for the edges), exact for the integrands; general quadrilaterals (two, three or five cells around a vertex, a ring, one refined cell; parallelograms): forms with at most one derivative, any on parallelograms, and with two derivatives applied to the nodal values of 1, x, y')
OUTSIDE = 'general quadrilaterals other than the layouts listed; kernels of higher degree; integrands the quadrature does not integrate exactly; deeper histories'
TASK_S = 200; PATH_S = 90

def sdata(env, n, ns, name):
    a = np.empty((n, ns), dtype=object if env.symbolic else float)
    for i in range(n):
        for s in range(ns): a[i, s] = env.real('%s%d_%d' % (name, i, s))
    return a

def kernel(env, D, kind, deg=1, name='k', F=None, ns=1):
    """(argument for Form, oracle(c, s))"""
    asm, fn = M('assembler'), M('function')
    dt = object if env.symbolic else float
    exps = poly_deg(D.dim, deg)
    if kind == 'none': return None, lambda c, s: D.const(1)
    if kind == 'number': return 3.5, lambda c, s: D.const(num(env, Fr(7, 2)))
    if kind == 'const':
        v = [env.real('%s%d' % (name, i)) for i in range(ns)]
        return fn.Constant(np.array(v, dtype=dt)), lambda c, s: D.const(v[s])
    if kind == 'poly':
        q = [spoly(env, '%s%d' % (name, i), exps) for i in range(ns)]
        ql = [D.lp(x) for x in q]
        if D.dim == 1: fs = [lambda x, r=r: r(x[:, 0] if np.ndim(x) == 2 else x) for r in q]
        else: fs = [lambda x, r=r: r(x[:, 0], x[:, 1]) for r in q]
        return fn.Explicit(fs if ns > 1 else fs[0], dim=D.dim), lambda c, s: ql[s]
    if kind.startswith('nodal'):
        d = F.dofs(); data = sdata(env, len(d), ns, name); b = F.basis()
        der = {'nodal': (0,), 'nodalx': (1, 0), 'nodaly': (1, 1), 'nodalxx': (2, 0, 0)}[kind]
        f = fn.Nodal(data=data, basis=b)
        row = {g: int(b.d2i(g)) for g in d}
        def lp(c, s):
            a = D.anc(c, F.flag)
            return F.nodal_lp(a, [data[row[g], s] for g in F.gd(a)], der)
        return (f if der == (0,) else asm.Kernel(f, derivatives=der)), lp
    if kind.startswith('dnodal'):       # nodal function on a basis of derivatives, as used for fluxes
        d = F.dofs(); data = sdata(env, len(d), ns, name); der = {'x': (1, 0), 'y': (1, 1)}[kind[-1]]; b = F.basis(der)
        row = {g: int(b.d2i(g)) for g in d}
        def dn(c, s):
            a = D.anc(c, F.flag)
            return F.nodal_lp(a, [data[row[g], s] for g in F.gd(a)], der)
        return fn.Nodal(data=data, basis=b), dn
    if kind == 'prod':          # F(a, b) = a*b + 2*b of an explicit and a nodal function
        k1, l1 = kernel(env, D, 'poly', deg, name + 'p', F); k2, l2 = kernel(env, D, 'nodal', deg, name + 'n', F)
        return asm.Kernel([k1, k2], F=lambda f, g: f * g + 2 * g), lambda c, s: l1(c, s) * l2(c, s) + l2(c, s).scale(2)
    if kind == 'comp':          # derivatives of one nodal function, per function of the list
        k2, l2 = kernel(env, D, 'nodal', deg, name + 'n', F)
        d = F.dofs(); b = F.basis(); data = k2.data()
        def dlp(c, s):
            a = D.anc(c, F.flag)
            return F.nodal_lp(a, [data[int(b.d2i(g)), s] for g in F.gd(a)], (1, 0))
        return asm.Kernel([k2, k2], derivatives=[(0,), (1, 0)], F=lambda f, g: f + 3 * g), lambda c, s: l2(c, s) + dlp(c, s).scale(3)
    if kind == 'cellF':         # the metafunction sees the cell: an arbitrary factor per cell
        k1, l1 = kernel(env, D, 'poly', deg, name + 'p', F)
        w = {c: env.real('%sw%s' % (name, '_'.join(map(str, c)))) for c in D.pat.cells}; wn = {node(D.mesh, c): v for c, v in w.items()}
        return asm.Kernel(k1, F=lambda f, cell=None: f * wn[cell]), lambda c, s: l1(c, s).scale(w[c])
    if kind == 'phiF':          # the metafunction sees shape functions and dofs: a second nodal function evaluated by hand
        k2, l2 = kernel(env, D, 'nodal', deg, name + 'n', F, ns)
        d = F.dofs(); data = sdata(env, len(d), 1, name + 'm'); b = F.basis(); row = {g: int(b.d2i(g)) for g in d}
        def G(f, phi=None, dofs=None):
            v = np.array([data[row[int(g)], 0] for g in dofs[b]], dtype=data.dtype)
            return f + phi[b].dot(v)[:, None]
        def lp(c, s):
            a = D.anc(c, F.flag)
            return l2(c, s) + F.nodal_lp(a, [data[row[g], 0] for g in F.gd(a)], (0,))
        return asm.Kernel(k2, F=G), lp
    if kind == 'mixed':         # F(f, g, h) of a constant, an explicit and a nodal function, in this order of arguments
        k0, l0 = kernel(env, D, 'const', deg, name + 'c', F); k1, l1 = kernel(env, D, 'poly', deg, name + 'p', F, ns); k2, l2 = kernel(env, D, 'nodal', deg, name + 'n', F)
        return asm.Kernel([k0, k1, k2], F=lambda f, g, h: f * g - 3 * h), lambda c, s: l0(c, 0) * l1(c, s) + l2(c, 0).scale(-3)
    raise ValueError(kind)

def ngauss(n, dim): return n if isinstance(n, (tuple, list)) else (n, n * n)

@balanced_only
def h_forms(env, dim=1, nx=2, ny=None, per=(), k=1, first=(), els=('Q1',), forms=(), ng=2, unit=False, keep=False, sub=None, kel=None, maxd=2, again=False, geo=None):
    """forms: list of (test, trial, kernel kind, degree) with test/trial = (element index, derivative) or None"""
    D = Dom(env, dim, nx, ny, per, k, first, unit, maxd, subs=(sub,) if sub else (), **(geo or {}))
    asm = M('assembler')
    E = [Fe(D, el, sub) for el in els]
    FK = Fe(D, kel, sub) if kel else E[0]
    fs, orc = [], []
    for i, (t, u, kk, deg) in enumerate(forms):
        ke, lp = kernel(env, D, kk, deg, 'k%d' % i, FK)
        kw = {}
        if t: kw['test'] = E[t[0]].basis(t[1])
        if u: kw['trial'] = E[u[0]].basis(u[1])
        fs.append(asm.Form(kernel=ke, **kw)); orc.append((t and (E[t[0]], t[1]), u and (E[u[0]], u[1]), lp))
    A = asm.Assembler(fs if len(fs) > 1 else fs[0], D.mesh, subforest_flag=sub, n_gauss=ngauss(ng, dim))
    A.assemble(**({'keep_cellwise_data': True} if keep else {}))
    if keep:            # the cells' own contributions stay available
        for n in (0, 1, 2):
            af = A.assembled_forms()[n]
            if af is None: continue
            for c in D.leaves(sub):
                data = af.cellwise_data().get(node(D.mesh, c))
                env.prove('cell data kept', data is not None and len(data['vals']) > 0, (n, c))
                if not data or not data['vals']: continue
                acc = {}
                for *g, v in zip(*data['dofs'], data['vals']):
                    g = tuple(int(x) for x in g); v = np.asarray(v, dtype=object).ravel()[0]; acc[g] = acc[g] + v if g in acc else v
                exp = {}
                for t, u, lp in orc:
                    if (t is not None) + (u is not None) != n: continue
                    for g, h, v in local(D, lp(c, 0), c, D.pat.box(c), t, u):
                        k_ = (g, h)[:n]; exp[k_] = exp[k_] + v if k_ in exp else v
                env.prove('cell dofs', set(acc) == set(exp), (n, c))
                for k_ in set(acc) & set(exp): env.eq('cell data', acc[k_], exp[k_], (n, c, k_))
    if again: A.assemble()
    terms = {0: [], 1: [], 2: []}
    dims = {}
    for t, u, lp in orc:
        n = 0 if t is None else 1 if u is None else 2
        dims[n] = (t, u)
        for c in D.leaves(sub): terms[n] += local(D, lp(c, 0), c, D.pat.box(c), t, u)
    for n, (t, u) in dims.items():
        if n == 0: compare(env, 'scalar', A.get_scalar(), None, None, terms[0])
        if n == 1: compare(env, 'vector', A.get_vector(), t[0].order(), None, terms[1])
        if n == 2:
            compare(env, 'matrix', A.get_matrix(), t[0].order(), u[0].order(), terms[2])

@balanced_only
def h_renew(env, dim=1, nx=2, ny=None, per=(), k=1, first=(), el='Q1', kel='Q1', forms=(), ng=3, how='set', ns=1):
    """one assembler, assembled before and after the nodal values of its coefficient change"""
    D = Dom(env, dim, nx, ny, per, k, first)
    asm, fn = M('assembler'), M('function')
    E = Fe(D, el); FK = E if kel == el else Fe(D, kel)
    d = FK.dofs(); b = FK.basis(); row = {g: int(b.d2i(g)) for g in d}
    now = [sdata(env, len(d), ns, 'a')]; f = fn.Nodal(data=np.array(now[0], dtype=now[0].dtype), basis=b)
    fs = []
    for t, u, kk, der in forms:
        kw = {}
        if t: kw['test'] = E.basis(t[1])
        if u: kw['trial'] = E.basis(u[1])
        fs.append(asm.Form(kernel=f if der == (0,) else asm.Kernel(f, derivatives=der), **kw))
    A = asm.Assembler(fs if len(fs) > 1 else fs[0], D.mesh, n_gauss=ngauss(ng, dim))
    def check(tag):
        for s in range(ns):
            terms = {0: [], 1: [], 2: []}; dims = {}
            for t, u, kk, der in forms:
                n = (t is not None) + (u is not None); tt, uu = t and (E, t[1]), u and (E, u[1]); dims[n] = (tt, uu)
                for c in D.leaves():
                    lp = FK.nodal_lp(D.anc(c, FK.flag), [now[0][row[g], s] for g in FK.gd(D.anc(c, FK.flag))], der)
                    terms[n] += local(D, lp, c, D.pat.box(c), tt, uu)
            for n, (tt, uu) in dims.items():
                got = A.get_scalar(i_sample=s) if n == 0 else A.get_vector(i_sample=s) if n == 1 else A.get_matrix(i_sample=s)
                compare(env, tag + ('scalar', 'vector', 'matrix')[n], got, E.order() if n else None, E.order() if n == 2 else None, terms[n])
    A.assemble(); check('')
    new = np.array(now[0], dtype=now[0].dtype); sel = list(range(len(d)))
    if how == 'modify':             # some nodes of the last sample
        dd = [g for i, g in enumerate(d) if i % 2 == 0]; sel = [row[g] for g in dd]
        v = np.array([env.real('b%d' % i) for i in sel], dtype=new.dtype)
        for i, x in zip(sel, v): new[i, ns - 1] = x
        f.modify_data(v, i_sample=ns - 1, dofs=dd)
    else:
        new = sdata(env, len(d), ns, 'b'); f.set_data(np.array(new, dtype=new.dtype))
    now[0] = new
    A.assemble(); check('again: ')

@balanced_only
def h_patch(env, layout='pair', rot='any', shear=0, k=0, first=(), el='Q1', ng=3, kk='const'):
    """two derivatives on general cells: the matrices applied to the nodal values of 1, x and y, where the integrals are polynomial again"""
    asm = M('assembler')
    D = Dom(env, 2, k=k, first=first, layout=layout, rot=rot, shear=shear); E = Fe(D, el)
    pos = {}
    for c in D.leaves():
        for g, p in zip(E.gd(c), D.pat.nodes(c, np.array(E.e.reference_nodes(), dtype=float))): pos[g] = p
    o = E.order()
    for p in (DX, DY):
        for q in (DX, DY):
            ke, lp = kernel(env, D, kk, 1, 'k%d%d' % (p[1], q[1]), E)
            A = asm.Assembler(asm.Form(kernel=ke, test=E.basis(p), trial=E.basis(q)), D.mesh, n_gauss=ngauss(ng, 2)); A.assemble()
            B = dense(A.get_matrix())
            env.prove('size', B.shape == (len(o), len(o)))
            for name, f in (('1', lambda z: 1), ('x', lambda z: z[0]), ('y', lambda z: z[1])):
                x = np.array([D.X(pos[g])[0 if name == 'x' else 1] if name != '1' else 1. for g in o], dtype=object)
                got = B.dot(x); hit = name == 'xy'[q[1]]
                ri = {g: i for i, g in enumerate(o)}; want = [0] * len(o)
                if hit:
                    for c in D.leaves():
                        for g, _, v in local(D, lp(c, 0), c, None, (E, p)): want[ri[g]] = want[ri[g]] + v
                env.eq('applied to %s' % name, got, np.array(want, dtype=object), (p, q))

V, DX, DY, DXX = (0,), (1, 0), (1, 1), (2, 0, 0)
def bil(t, u, kk='const', deg=0, i=0, j=0): return ((i, t), (j, u), kk, deg)
def lin(t, kk='const', deg=0, i=0): return ((i, t), None, kk, deg)
def con(kk='const', deg=0): return (None, None, kk, deg)

def h_mix(env, **cfg):
    """forms over cells, edges and points side by side"""
    from .A03 import h_mix as h
    h(env, **cfg)

def at_(f, dmu, ns=1): return f + (ns, dmu, None)

def tasks(tier):
    T = []
    def add(h, **c): T.append((h, c))
    I = dict(dim=1, nx=2); Qd = dict(dim=2, nx=2, ny=1); th = tier != 'quick'
    for el, ng in (('DQ0', 1), ('Q1', 2), ('Q2', 3), ('Q3', 4), ('DQ1', 2), ('DQ2', 3)):
        d = [V] if el == 'DQ0' else [V, DX]
        add('h_forms', **I, els=(el,), forms=[bil(t, u, 'poly', 1) for t in d for u in d], ng=ng)
        add('h_forms', **I, per=(0,) if el[0] == 'Q' else (), els=(el,), forms=[lin(t, 'poly', 1) for t in d] + [con('poly', 1)], ng=ng)
        add('h_forms', **dict(I, nx=3), els=(el,), k=1, first=((1,),), forms=[lin(V, 'poly', 1), bil(d[-1], V, 'const'), con('const')], ng=ng, keep=True)
        d = [V] if el == 'DQ0' else [V, DX, DY]
        two = el in ('Q1', 'DQ1', 'Q2') or th
        for t in d:
            if two or t == V: add('h_forms', **Qd, k=1, els=(el,), forms=[bil(t, u, 'const' if el == 'Q2' else 'poly', 1) for u in d], ng=ng)
        add('h_forms', **Qd, k=1, per=(0,) if el[0] == 'Q' else (), els=(el,), forms=[lin(t, 'poly', 1) for t in d] + [con('poly', 1)], ng=ng)
    # deeper and wider meshes
    for k, (nx, ny) in ((2, (2, 1)), (1, (2, 2))) + (((2, (2, 2)),) if th else ()):
        for el, ng in (('Q1', 2), ('Q2', 3)) + ((('Q3', 4),) if th else ()):
            add('h_forms', dim=2, nx=nx, ny=ny, k=k, els=(el,), forms=[lin(DX, 'const'), con('poly', 1)], ng=ng)
            if el == 'Q1' or th: add('h_forms', dim=2, nx=nx, ny=ny, k=k, els=(el,), forms=[bil(V, V)], ng=ng)
            add('h_forms', dim=1, nx=nx, k=k + 1, maxd=3, els=(el,), forms=[bil(V, DX), lin(V, 'poly', 1)], ng=ng)
    # second derivatives
    add('h_forms', **I, els=('Q2',), forms=[bil(DXX, V), lin(DXX, 'poly', 1)], ng=3)
    add('h_forms', **Qd, els=('Q2',), forms=[bil((2, 0, 1), V), bil((2, 0, 0), DY), lin((2, 1, 1), 'poly', 1)], ng=3)
    # mixed elements
    for e1, e2, ng in (('Q1', 'Q2', 3), ('Q2', 'DQ1', 3), ('Q2', 'DQ0', 2), ('Q1', 'Q3', 4)):
        add('h_forms', **I, els=(e1, e2), forms=[bil(V, V, 'poly', 1, 0, 1), bil(DX, V, 'const', 0, 0, 1), lin(V, 'poly', 1)], ng=ng)
        if e2 != 'Q3' or th: add('h_forms', **Qd, els=(e1, e2), forms=[bil(V, V, 'const', 0, 0, 1), bil(V, DY if e2 != 'DQ0' else V, 'const', 0, 0, 1), lin(V, 'poly', 1, 1)], ng=ng)
    # kernels
    for kk, dg in (('none', 0), ('number', 0), ('nodal', 1), ('nodalx', 1), ('prod', 1), ('comp', 1)):
        for el, kel in (('Q1', 'Q1'), ('Q1', 'Q2'), ('Q2', 'Q1'), ('DQ0', 'DQ1')):
            if el == 'DQ0' and kk in ('none', 'number'): continue
            same = 'same' if el == kel else None
            add('h_forms', **I, els=(el,), kel=kel, forms=[bil(V, V, kk, dg), lin(V, kk, dg), con(kk, dg)], ng=4)
            if el != 'DQ0': add('h_forms', **I, els=(el,), kel=kel, forms=[bil(DX, V, kk, dg), lin(DX, kk, dg)], ng=4)
            if (el, kel) != ('Q2', 'Q1') or th:
                add('h_forms', **Qd, k=0, els=(el,), kel=kel, forms=[bil(V, V, kk, dg)], ng=3)
                add('h_forms', **Qd, k=1, els=(el,), kel=kel, forms=[lin(V, kk, dg), con(kk, dg)] + ([lin(DY, kk, dg)] if el != 'DQ0' else []), ng=3)
    for kel in ('Q1', 'Q2'):
        add('h_forms', **I, els=('Q1',), kel=kel, forms=[lin(V, 'dnodalx'), con('dnodalx'), bil(V, DX, 'dnodalx')], ng=3)
        add('h_forms', **Qd, els=('Q1',), kel=kel, forms=[lin(V, 'dnodaly'), con('dnodalx')], ng=3)
    for f in (con('poly', 1), lin(V, 'poly', 1), bil(V, DX, 'poly', 1)):
        add('h_forms', **I, k=1, els=('Q1',), forms=[f, f], ng=3, again=True)
        add('h_forms', **Qd, k=0, els=('Q1',), forms=[f, f], ng=3, keep=True)
    add('h_forms', **I, els=('Q2',), forms=[lin(V, 'nodalxx'), con('nodalxx')], ng=3)
    add('h_forms', **Qd, els=('Q1',), kel='Q2', forms=[lin(DX, 'nodaly'), con('nodaly'), bil(V, DY, 'nodaly')], ng=3)
    # metafunctions of several functions, and of cell, shape functions and dofs
    for how in ('set', 'modify'):
        for ns in (1, 2):
            add('h_renew', **I, forms=[(t, u, '', der) for (t, u), der in (((None, None), (0,)), (((0, V), None), (0,)), (((0, V), (0, DX)), (1, 0)))], kel='Q2' if ns == 2 else 'Q1', how=how, ns=ns)
            add('h_renew', **Qd, k=0 if ns == 2 else 1, forms=[(t, u, '', der) for (t, u), der in (((None, None), (1, 1)), (((0, V), None), (0,)))], how=how, ns=ns)
    for kk in ('cellF', 'phiF', 'mixed'):
        for kel in ('Q1', 'Q2'):
            add('h_forms', **I, els=('Q1',), kel=kel, forms=[bil(V, DX, kk, 1), lin(V, kk, 1), con(kk, 1)], ng=3)
            add('h_forms', **Qd, k=0, els=('Q1',), kel=kel, forms=[lin(V, kk, 1), con(kk, 1)], ng=3)
    # rules of different order for cells and edges
    for g in ((1, 9), (6, 4), (2, 16)):
        add('h_forms', **Qd, k=0, els=('Q1',), forms=[bil(V, DY), lin(V), con('poly', 1)], ng=g)
        if g[0] < 3: add('h_forms', **Qd, k=0, els=('Q2',), forms=[bil(DX, DX), lin(V, 'poly', 1)], ng=g)
    for g in ((2, 1), (4, 36)): add('h_forms', **I, els=('Q1',), forms=[bil(V, DX), lin(V), con('poly', 1)], ng=g)
    # on a sub-mesh
    for el in ('Q1', 'Q2', 'DQ1'):
        add('h_forms', **I, sub='sub', els=(el,), first=((0,),), k=1, forms=[bil(DX, V, 'poly', 1), lin(V, 'poly', 1), con('poly', 1)], ng=3)
        add('h_forms', **Qd, sub='sub', els=(el,), first=((0,),), k=1 if th else 0, forms=[bil(V, DY, 'const', 1), lin(V, 'poly', 1), con('poly', 1)], ng=3)
    # general quadrilaterals: at most one derivative (the integrand is a polynomial again), any on parallelograms
    for el, ng in (('Q1', 3), ('Q2', 4), ('DQ1', 3)) + ((('Q3', 5), ('DQ2', 4)) if th else ()):
        for lay in ('pair', 'three', 'one', 'five'):
            rot = 'any' if lay == 'pair' and el == 'Q1' else (0, 1, 2, 3, 1) if lay != 'three' else (2, 0, 1)
            g = dict(layout=lay, rot=rot, shear=.5 if lay == 'one' else 0)
            add('h_forms', dim=2, geo=g, k=0, first=() if lay != 'one' else ((0,), (0, 2)), maxd=3, els=(el,), forms=[bil(V, V, 'poly' if el == 'Q1' else 'const', 1), lin(V, 'poly', 1), con('poly', 1)], ng=ng)
            if lay != 'five': add('h_forms', dim=2, geo=g, k=1 if lay == 'pair' and el != 'Q2' else 0, els=(el,), forms=[bil(DX, V, 'const'), lin(DY, 'poly', 1)], ng=ng)
        add('h_forms', dim=2, geo=dict(layout='pair', rot=(1, 2)), k=1, els=(el,), forms=[bil(V, DY, 'const'), lin(DX, 'nodal'), con('nodal')], ng=ng)
        add('h_forms', dim=2, geo=dict(layout='ring', rot=(3, 1, 0, 2)), k=0, first=((1,),), els=(el,), kel='Q1', forms=[lin(V, 'nodalx'), con('nodaly'), lin(V, 'nodal')], ng=3)
        add('h_forms', dim=2, geo=dict(layout='pair', rot=(3, 1)), k=0, first=((1,),), sub='sub', els=(el,), forms=[bil(V, DX), lin(V, 'poly', 1), con('poly', 1)], ng=ng)
        g = dict(layout='para', rot='any' if el == 'Q1' else (1, 3))
        add('h_forms', dim=2, geo=g, k=0, els=(el,), forms=[bil(DX, DX, 'poly', 1), bil(DY, DX), lin(DX, 'nodalx')], ng=ng)
        add('h_forms', dim=2, geo=dict(g, rot=(2, 1)), k=1 if el == 'Q1' or th else 0, first=((0,),) if el != 'Q1' else (), els=(el,), forms=[bil(DY, DY, 'const'), lin(DY, 'nodaly'), con('nodalx')], ng=3)
        if el == 'Q2': add('h_forms', dim=2, geo=dict(g, rot=(2, 1)), k=0, els=(el,), forms=[bil((2, 0, 1), V), bil((2, 0, 0), DY), lin((2, 1, 1), 'poly', 1), lin(V, 'nodalxx')], ng=ng)
        for lay in ('pair', 'three'): add('h_patch', layout=lay, rot=(2, 3, 1), first=((0,),), k=0, el=el, ng=ng, kk='const')
        add('h_patch', layout='one', rot=None, shear=.5, k=0, first=((0,), (0, 1)), el=el, ng=ng, kk='poly')
        add('h_patch', layout='pair', rot=(0, 1), k=0, el=el, ng=ng, kk='poly')
    # edges and points
    Q0 = dict(dim=2, nx=1, ny=1)
    for el in ('Q1', 'Q2', 'DQ1'):
        for ng in ((4, 4), (3, 9), (4, 1), (2, 16)):
            dg = 1 if ng[0] > 2 else 0; pk = 'poly' if dg else 'const'
            fs = [lin(V, pk, dg), lin(DX), con(pk, dg)] + ([bil(V, V)] if ng[0] > 2 and (el == 'Q1' or ng[0] == 4) else [bil(V, DX)] if el == 'Q1' else [])
            if ng[0] > 2 or el != 'Q2': add('h_mix', **Q0, k=0, els=(el,), ng=ng, problems=[[at_(f, 'ds')] for f in fs])
        add('h_mix', **Qd, k=0, els=(el,), ng=3, problems=[[at_(lin(V, 'poly', 1), 'ds'), at_(lin(V), 'dx')], [at_(con('poly', 1), 'ds', 2)]])
        add('h_mix', **Q0, k=0, first=((0,),), els=(el,), ng=3, problems=[[at_(lin(DY, 'nodal'), 'ds')], [at_(con('nodal'), 'ds')]])
        add('h_mix', **I, k=1, els=(el,), ng=3, problems=[[at_(bil(V, DX, 'poly', 1), 'dv'), at_(lin(V, 'poly', 1), 'dv')], [at_(con('nodal'), 'dv'), at_(lin(V), 'dx')]])
        add('h_mix', **Q0, k=0, els=(el,), ng=3, problems=[[at_(lin(V), 'dv'), at_(con('poly', 1), 'dv')]])
    add('h_mix', **Q0, k=0, els=('Q1', 'Q2'), ng=4, problems=[[at_(bil(V, DX, 'const', 0, 0, 1), 'ds')], [at_(bil(DY, V, 'const', 0, 1, 0), 'dx')]])
    return T
