"""A03: forms restricted to flagged entities integrate over exactly those; nested sub-meshes; samples and problems side by side."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, spoly, poly_deg, any_sym, Not
from .asmu import *
from .A02 import kernel, ngauss, V, DX, DY, DXX, bil, lin, con
MODS = ['mesh', 'fem', 'function', 'assembler']
BOUNDS = ('interval meshes of 2 roots and quadrilateral meshes of 2x1 roots on a symbolic box, every history of up to 1-2 splits, every rooted sub-mesh pair (coarse in fine); '
          'every subset of flagged cells, of the flagged edges of one (any) cell, of flagged vertices; elements DQ0, Q1, Q2, DQ1; kernels as in A02 (constant, polynomial, '
          'nodal, derivatives, on the coarse or the fine mesh); 1-3 samples per kernel, mixed with deterministic ones, 1-4 problems; cell, edge and point integrals side by side, with different rules for cells and edges; general quadrilaterals: trapezoids, parallelograms and cells around a vertex, flagged cells, edges and vertices')
OUTSIDE = ('general quadrilaterals other than the layouts listed (edges: sides of rational length); deeper histories; a form over vertices counts a vertex once per adjoining cell (as Form.regions documents: the regions of each cell)')
TASK_S = 200; PATH_S = 90

SIDE = [(0, 0), (1, 1), (0, 1), (1, 0)]         # k-th half-edge of a cell: axis it runs along, which end of the other axis
def side_box(D, c, k):
    if isinstance(D.pat, GPat): return k, 0
    b = list(D.pat.box(c)); ax, end = SIDE[k]; o = 1 - ax
    b[o] = (b[o][end], b[o][end])
    return b, o

def make_forms(env, D, E, forms, FK, ns, kw_of):
    asm = M('assembler'); fs, orc = [], []
    for i, (t, u, kk, deg) in enumerate(forms):
        n = ns[i] if isinstance(ns, (list, tuple)) else ns
        ke, lp = kernel(env, D, kk, deg, 'k%d' % i, FK, n)
        kw = dict(kw_of(i))
        if t: kw['test'] = E[t[0]].basis(t[1])
        if u: kw['trial'] = E[u[0]].basis(u[1])
        fs.append(asm.Form(kernel=ke, **kw)); orc.append((t and (E[t[0]], t[1]), u and (E[u[0]], u[1]), lp, n))
    return fs, orc

def region_terms(env, D, o, i, s, dmu, sub, inreg):
    """local integrals of form i, sample s, over the entities in its region"""
    t, u, lp, n = o; s = s if n > 1 else 0
    out = []
    for c in D.leaves(sub):
        box = D.pat.box(c); K = lp(c, s)
        if dmu == 'dx':
            if inreg(i, c, None): out += local(D, K, c, box, t, u)
            else: out += [(g, h, 0) for g, h, v in zero(D, c, t, u)]
        elif dmu == 'ds':
            out += zero(D, c, t, u)
            for k in range(4):
                if inreg(i, c, k):
                    bx, skip = side_box(D, c, k); out += local(D, K, c, bx, t, u, skip=skip, scale=D.u[1 - skip])
        else:
            out += zero(D, c, t, u)
            for k, p in enumerate(D.pat.corners(c)):
                if inreg(i, c, k): out += point(D, K, c, p, t, u)
    return out

def zero(D, c, t, u):
    T = t[0].gd(D.anc(c, t[0].flag)) if t else [None]; U = u[0].gd(D.anc(c, u[0].flag)) if u else [None]
    return [(g, h, 0) for g in T for h in U]

def point(D, K, c, p, t, u):
    env = D.env
    if isinstance(D.pat, GPat): return glocal(D, K, c, None, t, u, at=[(0, 0), (1, 0), (1, 1), (0, 1)][D.pat.corners(c).index(p)])
    def side(t):
        if t is None: return [(None, 1)]
        F, der = t; a = D.anc(c, F.flag); f = F.hfac(der); out = []
        for j, g in enumerate(F.gd(a)):
            v = Fr(1)
            for q, x in zip(F.fun(a, j, der), p): v *= peval(q, x)
            out.append((g, num(env, v) / f if der[1:] else num(env, v)))
        return out
    k = 0
    for e, co in K.t.items():
        w = Fr(1)
        for n, x in zip(e, p): w *= x ** n
        k = k + co * num(env, w)
    return [(g, h, a * b * k) for g, a in side(t) for h, b in side(u)]

def verify(env, D, A, orc, i_problem, dmu, sub, inreg, tag='', region=None):
    groups = {}
    for i, o in orc: groups.setdefault(0 if o[0] is None else 1 if o[1] is None else 2, []).append((i, o))
    for n, os in groups.items():
        nsam = max(o[3] for i, o in os)
        env.prove('number of samples' + tag, A.n_samples(i_problem, ['constant', 'linear', 'bilinear'][n]) == nsam, (n, [o[3] for i, o in os]))
        af = A.assembled_forms(i_problem)[n]
        env.prove('samples of the assembled form' + tag, af.n_samples() == nsam, n)
        if n:
            E = [o[0][0] for i, o in os[:1]] + [o[1][0] for i, o in os[:1] if n == 2]
            env.prove('dofs of the assembled form' + tag, list(af.n_dofs()) == [len(e.dofs()) for e in E], n)
            if region is None: env.prove('rows and columns' + tag, [list(map(int, d)) for d in af.aggregate_data()['udofs']] == [sorted(e.dofs()) for e in E], n)
    for n in (0, 1, 2):
        if n not in groups: env.prove('no form, no samples' + tag, A.n_samples(i_problem, ['constant', 'linear', 'bilinear'][n]) is None and A.assembled_forms(i_problem)[n] is None, n)
    for n, os in groups.items():
        nsam = max(o[3] for i, o in os)
        for s in range(nsam):
            terms = []
            for i, o in os: terms += region_terms(env, D, o, i, s, dmu(i) if callable(dmu) else dmu, sub, inreg)
            t, u = os[0][1][:2]
            if n == 0: compare(env, 'scalar' + tag, A.get_scalar(i_problem, s), None, None, terms)
            if n == 1:
                b = A.get_vector(i_problem, s); compare(env, 'vector' + tag, b, t[0].order(), None, terms)
                if nsam > 1: env.eq('several samples at once' + tag, A.get_vector(i_problem, [nsam - 1, s]), np.array([A.get_vector(i_problem, nsam - 1), b], dtype=object))
            if n == 2: compare(env, 'matrix' + tag, A.get_matrix(i_problem, s), t[0].order(), u[0].order(), terms)

@balanced_only
def h_flag(env, dim=1, nx=2, ny=None, k=1, first=(), el='Q1', dmu='dx', forms=(), ng=3, sub=None, kel=None, unit=False, ns=1, geo=None):
    """every form restricted to flag R (arbitrary set of cells, edges or vertices)"""
    D = Dom(env, dim, nx, ny, (), k, first, unit, subs=(sub,) if sub else (), **(geo or {})); E = [Fe(D, el, sub)]
    FK = Fe(D, kel, sub) if kel else E[0]
    L = D.leaves(sub); bits = {}
    if dmu == 'dx':
        for c in L: bits[c, None] = env.mark(node(D.mesh, c), 'R', 'r%s' % '_'.join(map(str, c)))
    elif dmu == 'ds':
        c = env.choice('cell', L)
        for k_ in range(4):
            he = node(D.mesh, c).get_half_edges()[k_]
            bits[c, k_] = env.mark(he, 'R', 'e%d' % k_)
    else:
        vs = {}
        for c in L:
            for k_, v in enumerate(node(D.mesh, c).get_vertices()):
                if v not in vs: vs[v] = env.mark(v, 'R', 'v%d' % len(vs))
                bits[c, k_] = vs[v]
    fs, orc = make_forms(env, D, E, forms, FK, ns, lambda i: dict(dmu=dmu, flag='R'))
    A = M('assembler').Assembler(fs if len(fs) > 1 else fs[0], D.mesh, subforest_flag=sub, n_gauss=ngauss(ng, dim))
    A.assemble()
    verify(env, D, A, list(enumerate(orc)), 0, dmu, sub, lambda i, c, k: bool(bits.get((c, k), False)))

@balanced_only
def h_parts(env, dim=1, nx=2, ny=None, k=1, el='Q1', forms=(), ng=3):
    """flag R, its complement, and the whole: parts add up, in one problem and in separate ones"""
    D = Dom(env, dim, nx, ny, (), k); E = [Fe(D, el)]; asm = M('assembler')
    for c in D.leaves():
        b = env.bit('r%s' % '_'.join(map(str, c)))
        env.markall([node(D.mesh, c)], 'R', b); env.markall([node(D.mesh, c)], 'S', Not(b))
    t, u, kk, deg = forms[0]
    ke, lp = kernel(env, D, kk, deg, 'k', E[0], 1)
    kw = {}
    if t: kw['test'] = E[0].basis(t[1])
    if u: kw['trial'] = E[0].basis(u[1])
    P = [[asm.Form(kernel=ke, flag='R', **kw)], [asm.Form(kernel=ke, flag='S', **kw)], [asm.Form(kernel=ke, **kw)],
         [asm.Form(kernel=ke, flag='R', **kw), asm.Form(kernel=ke, flag='S', **kw)]]
    A = asm.Assembler(P, D.mesh, n_gauss=ngauss(ng, dim)); A.assemble()
    g = [A.get_scalar, A.get_vector, A.get_matrix][(t is not None) + (u is not None)]
    r = [np.asarray(dense(g(i)), dtype=object) for i in range(4)]
    env.prove('sizes', len({x.shape for x in r}) == 1, [x.shape for x in r])
    if len({x.shape for x in r}) == 1:
        env.eq('parts add up', r[0] + r[1], r[2]); env.eq('in one problem', r[3], r[2])

@balanced_only
def h_region(env, dim=1, nx=2, ny=None, k=1, el='Q1', forms=(), ng=3, first=(), sub=None):
    """assembly over flagged cells (of the mesh, or of a sub-mesh) only"""
    D = Dom(env, dim, nx, ny, (), k, first, subs=(sub,) if sub else ()); E = [Fe(D, el, sub)]
    L = D.leaves(sub)
    bits = {c: env.mark(node(D.mesh, c), 'R', 'r%s' % '_'.join(map(str, c))) for c in L}
    fs, orc = make_forms(env, D, E, forms, E[0], 1, lambda i: {})
    A = M('assembler').Assembler(fs if len(fs) > 1 else fs[0], D.mesh, subforest_flag=sub, n_gauss=ngauss(ng, dim)); A.assemble(region_flag='R')
    S = [c for c in L if bool(bits[c])]
    ds = sorted({g for c in S for g in E[0].gd(c)})
    for n in (0, 1, 2):
        os = [(i, o) for i, o in enumerate(orc) if (o[0] is not None) + (o[1] is not None) == n]
        if not os: continue
        terms = []
        for i, o in os:
            for c in S: terms += local(D, o[2](c, 0), c, D.pat.box(c), o[0], o[1])
        if n == 0: compare(env, 'scalar', A.get_scalar(), None, None, terms)
        if n == 1: compare(env, 'vector', A.get_vector(), ds, None, terms)
        if n == 2: compare(env, 'matrix', A.get_matrix(), ds, ds, terms)

@balanced_only
def h_nested(env, dim=1, nx=2, ny=None, k=1, first=(), els=('Q1', 'Q1'), whose='test', forms=(), ng=3, fine=None, kel=None, ksub=None, dmu='dx', geo=None):
    """test and/or trial functions (and nodal kernels) on a coarser sub-mesh nested in the integration mesh"""
    subs = ['co'] + ([fine] if fine else [])
    D = Dom(env, dim, nx, ny, (), k, first, subs=subs, **(geo or {}))
    if fine: env.assume(True) if D.contained(fine, 'co') else None
    if fine and not D.contained(fine, 'co'): return
    fl = {'test': ('co', fine), 'trial': (fine, 'co'), 'both': ('co', 'co'), 'none': (fine, fine)}[whose]
    E = [Fe(D, els[0], fl[0]), Fe(D, els[1], fl[1])]
    FK = Fe(D, kel, ksub) if kel else None
    fs, orc = make_forms(env, D, E, forms, FK, 1, lambda i: dict(dmu=dmu))
    A = M('assembler').Assembler(fs if len(fs) > 1 else fs[0], D.mesh, subforest_flag=fine, n_gauss=ngauss(ng, dim)); A.assemble()
    verify(env, D, A, list(enumerate(orc)), 0, dmu, fine, lambda i, c, k: True)

@balanced_only
def h_many(env, dim=1, nx=2, ny=None, k=1, el='Q1', problems=(), ng=3, kel=None, flags=False, geo=None):
    """several problems with kernels of several samples (or one); every sample of every problem as if alone"""
    D = Dom(env, dim, nx, ny, (), k, **(geo or {})); E = [Fe(D, el)]; FK = Fe(D, kel) if kel else E[0]
    L = D.leaves()
    if flags: bits = {c: env.mark(node(D.mesh, c), 'R', 'r%s' % '_'.join(map(str, c))) for c in L}
    P, O = [], []
    for p, forms in enumerate(problems):
        asm = M('assembler'); fs, orc = [], []
        for i, (t, u, kk, deg, ns) in enumerate(forms):
            ke, lp = kernel(env, D, kk, deg, 'k%d_%d' % (p, i), FK, ns)
            kw = dict(flag='R') if flags and i == 0 else {}
            if t: kw['test'] = E[t[0]].basis(t[1])
            if u: kw['trial'] = E[u[0]].basis(u[1])
            fs.append(asm.Form(kernel=ke, **kw)); orc.append((t and (E[t[0]], t[1]), u and (E[u[0]], u[1]), lp, ns))
        P.append(fs); O.append(orc)
    A = M('assembler').Assembler(P, D.mesh, n_gauss=ngauss(ng, dim)); A.assemble()
    for p, orc in enumerate(O):
        verify(env, D, A, list(enumerate(orc)), p, 'dx', None, lambda i, c, k: not flags or i > 0 or bool(bits[c]), ' of problem %d' % p)

@balanced_only
def h_mix(env, dim=2, nx=2, ny=1, k=0, first=(), els=('Q1',), problems=(), ng=(4, 4), kel=None, edge=None, per=(), geo=None):
    """cell, edge and point integrals, restricted or not, side by side: forms (t, u, kind, deg, samples, measure, flag);
    C: any cells, E: any edges of one cell, P: any vertices"""
    asm = M('assembler')
    D = Dom(env, dim, nx, ny, per, k, first, **(geo or {})); E = [Fe(D, e) for e in els]; FK = Fe(D, kel) if kel else E[0]
    L = D.leaves(); flags = {f[6] for fs in problems for f in fs if f[6]}; bits = {}
    if 'C' in flags:
        for c in L: bits['C', c, None] = env.mark(node(D.mesh, c), 'C', 'r%s' % '_'.join(map(str, c)))
    if 'E' in flags:
        c = env.choice('cell', L) if edge is None else edge
        for k_ in range(4): bits['E', c, k_] = env.mark(node(D.mesh, c).get_half_edges()[k_], 'E', 'e%d' % k_)
    if 'P' in flags:
        vs = {}
        for c in L:
            for k_, v in enumerate(node(D.mesh, c).get_vertices()):
                if v not in vs: vs[v] = env.mark(v, 'P', 'v%d' % len(vs))
                bits['P', c, k_] = vs[v]
    P, O = [], []
    for p, forms in enumerate(problems):
        fs, orc = [], []
        for i, (t, u, kk, deg, ns, dmu, fl) in enumerate(forms):
            ke, lp = kernel(env, D, kk, deg, 'k%d_%d' % (p, i), FK, ns)
            kw = dict(dmu=dmu, **({'flag': fl} if fl else {}))
            if t: kw['test'] = E[t[0]].basis(t[1])
            if u: kw['trial'] = E[u[0]].basis(u[1])
            fs.append(asm.Form(kernel=ke, **kw)); orc.append((t and (E[t[0]], t[1]), u and (E[u[0]], u[1]), lp, ns))
        P.append(fs); O.append(orc)
    A = asm.Assembler(P, D.mesh, n_gauss=ngauss(ng, dim)); A.assemble()
    for p, orc in enumerate(O):
        fl = [f[6] for f in problems[p]]
        verify(env, D, A, list(enumerate(orc)), p, lambda i: problems[p][i][5], None, lambda i, c, k: fl[i] is None or bool(bits.get((fl[i], c, k), False)), ' of problem %d' % p)

def s_(f, ns): return f + (ns,)
def m_(f, dmu, fl=None, ns=1): return f + (ns, dmu, fl)

def tasks(tier):
    T = []; th = tier != 'quick'
    def add(h, **c): T.append((h, c))
    I = dict(dim=1, nx=2); Qd = dict(dim=2, nx=2, ny=1)
    for el in ('Q1', 'Q2', 'DQ1', 'DQ0'):
        d = V if el == 'DQ0' else DX
        add('h_flag', **I, el=el, forms=[bil(V, d, 'poly', 1), lin(d, 'poly', 1), con('poly', 1)])
        add('h_flag', **Qd, k=1, el=el, forms=[lin(V, 'poly', 1), con('poly', 1)])
        add('h_flag', **Qd, k=0, el=el, forms=[bil(V, d, 'poly', 1)])
        dd = [V] if el == 'DQ0' else [V, DX, DY]
        for fs in ([con('poly', 1)], [lin(t, 'poly', 1) for t in dd], [lin(V, 'poly', 1), con('poly', 1)], [bil(V, dd[-1], 'poly', 1)], [lin(V, 'nodal'), con('nodal')], [con('nodal'), con('const')]):
            add('h_flag', **Qd, k=0, el=el, dmu='ds', forms=fs)
        for fs in ([con('poly', 1)], [lin(d, 'poly', 1)], [bil(V, V, 'poly', 1)], [lin(V, 'nodal'), con('nodal')]):
            add('h_flag', **I, k=1, el=el, dmu='dv', forms=fs)
    add('h_flag', **Qd, k=1, el='Q1', dmu='ds', forms=[lin(DX, 'poly', 1), con('nodal')], kel='Q2')
    add('h_flag', **Qd, k=1, el='Q1', dmu='ds', forms=[con('nodalx'), con('nodaly')], kel='Q2')
    add('h_flag', **I, el='Q1', first=((0,),), sub='sub', forms=[bil(V, V, 'poly', 1), lin(DX, 'poly', 1), con('poly', 1)])
    add('h_flag', **Qd, el='Q1', first=((0,),), k=0, sub='sub', dmu='ds', forms=[lin(V, 'poly', 1), con('poly', 1)])
    for el in ('Q1', 'DQ1'):
        for f in (con('poly', 1), lin(DX, 'poly', 1), bil(V, DX, 'poly', 1)):
            add('h_parts', **I, el=el, forms=[f])
            add('h_parts', **Qd, k=0 if f[1] else 1, el=el, forms=[f])
        add('h_region', **I, el=el, forms=[con('poly', 1), lin(V, 'poly', 1), bil(V, DX, 'poly', 1)])
        add('h_region', **I, k=0, first=((0,),), sub='sub', el=el, forms=[con('poly', 1), lin(V, 'poly', 1), bil(V, DX, 'poly', 1)])
        add('h_region', **Qd, k=0, first=((0,),), sub='sub', el=el, forms=[con('poly', 1), lin(V, 'poly', 1)])
        add('h_region', **Qd, k=0, el=el, forms=[con('poly', 1), lin(V, 'poly', 1), bil(V, DX, 'const', 1)])
    for dim, B in ((1, I), (2, Qd)):
        for whose in ('test', 'trial', 'both'):
            for fine in (None, 'fi'):
                for els in (('Q1', 'Q1'), ('Q1', 'Q2'), ('DQ0', 'Q1')) if dim == 1 or th else (('Q1', 'Q1'),):
                    for fs in ([bil(V, V, 'poly', 1, 0, 1)], [bil(V, DX, 'const', 0, 0, 1)], [lin(V, 'poly', 1)]) + (([bil(DX, V, 'const', 0, 0, 1), lin(DX, 'poly', 1)],) if els[0] != 'DQ0' else ()):
                        if fs[0][1] is None and whose == 'trial': continue
                        add('h_nested', **B, first=((0,),), k=1 if dim == 1 else 0, els=els, whose=whose, forms=fs, fine=fine, ng=3)
        for kel in ('Q1', 'Q2'):
            for kk in ('nodal', 'nodalx'):
                add('h_nested', **B, first=((0,),), k=1 if dim == 1 else 0, els=('Q1', 'Q1'), whose='none', kel=kel, ksub='co', forms=[lin(V, kk), con(kk), bil(V, V, kk, 0, 0, 1)][:2 if dim == 2 else 3])
    add('h_nested', **Qd, first=((0,),), k=0, els=('Q1', 'Q1'), whose='both', dmu='ds', forms=[lin(V, 'poly', 1)])
    add('h_nested', **Qd, first=((0,),), k=0, els=('Q1', 'Q1'), whose='test', dmu='ds', forms=[bil(V, DX, 'const', 0, 0, 1)])
    # cells, edges and points together; rules of different order for cells and edges
    Q0 = dict(dim=2, nx=1, ny=1)
    for ng in ((4, 4), (3, 9), (2, 9), (4, 1)):
        for el in ('Q1', 'Q2'):
            if ng in ((4, 4), (3, 9)):      # bilinear over edges
                if ng == (3, 9) or el == 'Q1': add('h_mix', **Q0, k=0, els=(el,), ng=ng, problems=[[m_(bil(V, V), 'ds')], [m_(bil(DX, DY) if el == 'Q1' else bil(DX, V), 'dx'), m_(bil(V, V), 'ds', 'E')]])
                else: add('h_mix', **Q0, k=0, els=(el,), ng=ng, problems=[[m_(bil(V, V), 'ds')]])
            if ng == (2, 9) and el == 'Q1': add('h_mix', **Q0, k=0, first=((0,),), edge=(0, 2), els=('Q1',), ng=ng, problems=[[m_(bil(V, V), 'dx', 'C')] , [m_(con('poly', 1), 'ds', 'E'), m_(lin(V, 'nodal'), 'dx')]])
            if ng[0] == 4: add('h_mix', **Q0, k=0, els=(el,), kel='Q2', ng=ng, problems=[[m_(lin(V, 'nodal'), 'ds'), m_(con('nodal'), 'ds', 'E')], [m_(lin(V, 'poly', 1), 'ds', 'E')]])
    for el in ('Q1', 'Q2'):
        add('h_mix', dim=2, nx=2, ny=1, k=0, els=(el,), ng=3, problems=[[m_(lin(DX), 'dx', 'C'), m_(lin(V, 'poly', 1), 'ds', 'E'), m_(con('poly', 1), 'ds'), m_(con('const'), 'dx', 'C')]])
        add('h_mix', dim=2, nx=1, ny=1, k=0, first=((0,),), els=(el, 'DQ0'), ng=3, problems=[[m_(lin(V, 'poly', 1), 'ds', 'E', 2), m_(lin(V), 'dx')], [m_(lin(V, 'const', 0, 1), 'dx', 'C'), m_(con('nodal'), 'ds')]], edge=(0, 1))
        add('h_mix', dim=1, nx=2, ny=None, k=1, els=(el, 'DQ1'), ng=3, problems=[[m_(bil(DX, DX, 'poly', 1), 'dx', 'C'), m_(bil(V, V), 'dv', 'P'), m_(lin(V, 'poly', 1), 'dv', 'P')], [m_(lin(V, 'nodal', 0, 1), 'dx')], [m_(bil(V, V, 'const', 0, 0, 1), 'dx'), m_(con('poly', 1), 'dv', 'P'), m_(con('poly', 1), 'dx')]])
        add('h_mix', dim=2, nx=1, ny=1, k=0, els=(el,), ng=3, problems=[[m_(lin(V), 'dv', 'P'), m_(lin(V, 'poly', 1), 'ds'), m_(lin(DY), 'dx')]])
    for kk in ('cellF', 'phiF', 'mixed'):
        add('h_mix', dim=2, nx=2, ny=1, k=0, els=('Q1',), kel='Q1', ng=3, problems=[[m_(lin(V, kk, 1), 'ds', 'E'), m_(con(kk, 1), 'dx', 'C'), m_(con(kk, 1), 'ds', 'E')]], edge=(1,))
        add('h_mix', dim=1, nx=2, ny=None, k=1, els=('Q1',), kel='Q2', ng=3, problems=[[m_(lin(V, kk, 1), 'dx', 'C'), m_(con(kk, 1), 'dv', 'P')]])
    # general quadrilaterals
    S1, S2 = dict(layout='slant', rot=(1, 3), similar=True), dict(layout='slant2', rot=(0, 2), similar=True)
    for el, ng in (('Q1', 4), ('Q2', 5)):
        add('h_flag', dim=2, geo=dict(layout='three', rot=(1, 0, 3)), k=0, el=el, forms=[lin(V, 'poly', 1), con('poly', 1), bil(V, DX)], ng=ng)
        for fs in ([con('poly', 1)], [lin(V, 'poly', 1)], [bil(V, V)], [lin(V, 'nodal'), con('nodal')]):
            add('h_flag', dim=2, geo=S1, k=0, el=el, dmu='ds', forms=fs, ng=ng)
        add('h_flag', dim=2, geo=dict(S2, rot='any'), k=0, el=el, dmu='ds', forms=[lin(V, 'poly', 1)], ng=ng)
        add('h_flag', dim=2, geo=S2, k=0, first=((0,),), el=el, dmu='ds', forms=[lin(DX, 'poly', 1), con('nodaly')], ng=ng)
        add('h_mix', dim=2, geo=S1, k=0, els=(el,), ng=ng, problems=[[m_(lin(V), 'dx', 'C'), m_(lin(V, 'poly', 1), 'ds', 'E'), m_(con('poly', 1), 'ds'), m_(lin(V), 'dv')], [m_(con('nodal'), 'dx', 'C')]])
        add('h_mix', dim=2, geo=dict(layout='pair', rot=(2, 1)), k=0, els=(el,), ng=ng, problems=[[m_(lin(V, 'poly', 1), 'dv', 'P'), m_(con('poly', 1), 'dv'), m_(lin(DX), 'dx')]])
        for fs in ([bil(V, V, 'poly' if el == 'Q1' else 'const', 1, 0, 1)], [lin(V, 'poly', 1)], [bil(V, DX, 'const', 0, 0, 1)]):
            add('h_nested', dim=2, geo=dict(layout='pair', rot=(1, 3)) if el == 'Q1' and (fs[0][1] is None or len(fs[0][1][1]) == 1) else dict(layout='para', rot=(1, 2)), first=((0,),), k=0,
                els=(el, 'Q1'), whose='both', forms=fs, ng=3)
        add('h_many', dim=2, geo=dict(layout='pair', rot=(1, 3)), k=0, el=el, ng=ng, problems=[[s_(bil(V, V, 'poly', 1), 2), s_(lin(DX, 'nodal', 1), 2), s_(con('const', 1), 3)], [s_(lin(V, 'nodal', 1), 1)]])
    # samples and problems
    for kk in ('const', 'poly', 'nodal'):
        for n1, n2 in ((1, 1), (2, 1), (1, 3), (2, 2)):
            for fl in (False, True):
                B = I if fl or (n1, n2) != (2, 2) else Qd
                add('h_many', **dict(B, k=0 if fl else 1 if B is I else 0), flags=fl, problems=[[s_(bil(V, V, kk, 1), n1), s_(bil(DX, DX, kk, 1), n2), s_(lin(V, kk, 1), n1), s_(lin(DX, kk, 1), n2), s_(con(kk, 1), n1), s_(con(kk, 1), n2)],
                                                    [s_(lin(V, kk, 1), n2)], [s_(con(kk, 1), n1), s_(bil(V, DX, kk, 1), 1)]])
    # more samples, more problems
    for kk in ('poly', 'nodal'):
        add('h_flag', **I, el='Q1', ns=3, forms=[bil(V, DX, kk, 1), lin(V, kk, 1), con(kk, 1)], kel='Q1')
        add('h_flag', **Qd, k=0, el='Q1', dmu='ds', ns=3, forms=[lin(V, kk, 1), con(kk, 1)], kel='Q1')
        add('h_many', **dict(Qd, k=0), flags=True, problems=[[s_(lin(V, kk, 1), 3), s_(con(kk, 1), 3)], [s_(con(kk, 1), 2)], [s_(lin(DX, kk, 1), 1)], [s_(con(kk, 1), 4), s_(lin(V, kk, 1), 1)]])
        add('h_many', **dict(I, k=1), flags=False, problems=[[s_(bil(V, V, kk, 1), 3), s_(lin(V, kk, 1), 2)], [s_(bil(V, DX, kk, 1), 1), s_(bil(DX, V, kk, 1), 4)], [s_(con(kk, 1), 3)], [s_(lin(V, kk, 1), 3), s_(con(kk, 1), 2)]])
    return T
