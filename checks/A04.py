"""A04: integral-operator forms are the exact double integrals (or the exactly interpolated operator) of the kernel."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, spoly, poly_deg, any_sym, And
from .asmu import *
from .A02 import ngauss, sdata, V, DX, DY
MODS = ['mesh', 'fem', 'function', 'assembler']
BOUNDS = ('interval meshes of 1-2 roots and quadrilateral meshes of up to 2x1 roots (thorough 2x2) on a symbolic box, every 2:1 balanced history of 0-3 splits (1D) or 0-1 splits (2D); '
          'whole mesh and rooted sub-meshes; elements DQ0, DQ1, Q1-Q3 (pairs of equal or different elements, sub-meshes and derivatives); kernels k(x,y): every polynomial of degree 1 (1D also 2) per '
          'point variable, symmetric or not and declared so or not, constants, bivariate nodal functions with arbitrary data, products and sums of these (partly symmetric); up to 3 samples; every subset of flagged cells; other forms and problems '
          'assembled next to it; all kernel coefficients, nodal data and the box symbolic; quadrature of 1-4 points per direction')
OUTSIDE = ('kernels that are not polynomial (covariance functions; C02 covers those functions themselves); integrands the quadrature does not integrate exactly; forms over edges or vertices; periodic meshes; '
           'cells that are not rectangles')
TASK_S = 200; PATH_S = 90

def exps2(dim, deg, sym=False):
    es = [a + b for a in poly_deg(dim, deg) for b in poly_deg(dim, deg)]
    return es

class K2(object):
    """bivariate kernel oracle: lp(c, d, s) polynomial in the pattern coordinates of both points"""
    pass

def lp2(D, q):
    r = LP({}); n = 2 * D.dim; one = tuple([0] * n)
    for e, c in zip(q.e, q.c):
        t = LP({one: c})
        for k, m in enumerate(e):
            ek = tuple(1 if i == k else 0 for i in range(n))
            for _ in range(m): t = t * LP({one: D.o[k % D.dim], ek: D.u[k % D.dim]})
        r = r + t
    return r

def outer_lp(F, c, d, vals):
    """sum_ij v_ij L_i^c(x) L_j^d(y)"""
    D = F.D; env = D.env; r = LP({})
    for i in range(len(vals)):
        for j in range(len(vals[0])):
            t = {(): vals[i][j]}
            for a in F.fun(c, i) + F.fun(d, j): t = {e + (m,): q * num(env, co) for e, q in t.items() for m, co in enumerate(a) if co}
            r = r + LP(t)
    return r

def kernel2(env, D, kind, deg, ns=1, name='k', F=None):
    asm, fn = M('assembler'), M('function'); dim = D.dim
    if kind in ('poly', 'sym', 'symflag'):
        es = exps2(dim, deg)
        qs = []
        for s in range(ns):
            q = spoly(env, '%s%d' % (name, s), es)
            if kind != 'poly':          # symmetrise the coefficients
                co = dict(zip(q.e, q.c)); q.c = [co[min(e, e[dim:] + e[:dim])] for e in q.e]
            qs.append(q)
        def f(q):
            if dim == 1: return lambda x, y: q(x[:, 0] if np.ndim(x) == 2 else x, y[:, 0] if np.ndim(y) == 2 else y)
            return lambda x, y: q(x[:, 0], x[:, 1], y[:, 0], y[:, 1])
        ls = [lp2(D, q) for q in qs]
        return fn.Explicit([f(q) for q in qs] if ns > 1 else f(qs[0]), dim=dim, n_variables=2, symmetric=(kind == 'symflag')), lambda c, d, s: ls[s]
    if kind == 'const':
        v = [env.real('%s%d' % (name, s)) for s in range(ns)]
        return fn.Constant(np.array(v, dtype=object if env.symbolic else float), n_variables=2), lambda c, d, s: LP({tuple([0] * 2 * dim): v[s]})
    if kind in ('prod', 'prodsym', 'sum3'):     # metafunctions of several kernels, some symmetric
        k1, l1 = kernel2(env, D, 'symflag', deg, ns, name + 'a', F)
        k2, l2 = kernel2(env, D, {'prod': 'poly', 'prodsym': 'symflag', 'sum3': 'poly'}[kind], deg, 1, name + 'b', F)
        if kind != 'sum3': return asm.Kernel([k1, k2], F=lambda f, g: f * g), lambda c, d, s: l1(c, d, s) * l2(c, d, 0)
        k3, l3 = kernel2(env, D, 'const', 0, 1, name + 'c', F)
        return asm.Kernel([k3, k2, k1], F=lambda f, g, h: f * h - 2 * g), lambda c, d, s: l3(c, d, 0) * l1(c, d, s) + l2(c, d, 0).scale(-2)
    if kind in ('nodal', 'nodalsym'):
        ds = F.dofs(); n = len(ds); b = F.basis(); row = {g: int(b.d2i(g)) for g in ds}
        data = np.empty((n, n, ns), dtype=object if env.symbolic else float)
        for i in range(n):
            for j in range(i + 1 if kind == 'nodalsym' else n):
                for s in range(ns):
                    data[i, j, s] = env.real('%s%d_%d_%d' % (name, i, j, s))
                    if kind == 'nodalsym': data[j, i, s] = data[i, j, s]
        f = fn.Nodal(data=data, basis=b, n_variables=2, symmetric=(kind == 'nodalsym'))
        def lp(c, d, s):
            a, e = D.anc(c, F.flag), D.anc(d, F.flag)
            V_ = [[data[row[g], row[h], s] for h in F.gd(e)] for g in F.gd(a)]
            return outer_lp(F, a, e, V_)
        return f, lp
    raise ValueError(kind)

def sidefun(D, t, c, box):
    F, der = t; a = D.anc(c, F.flag)
    return [(g, F.fun(a, j, der)) for j, g in enumerate(F.gd(a))], F.hfac(der)

def double(D, K, c, d, t, u):
    """local double integrals over leaves c (test variable) and d (trial variable)"""
    env = D.env; T, ft = sidefun(D, t, c, None); U, fu = sidefun(D, u, d, None)
    bc, bd = D.pat.box(c), D.pat.box(d); n = D.dim; out = []; v = D.vol() * D.vol(); fac = ft * fu
    es = list(K.t)
    MT = {(i, a, m): pmom(A[a], bc[a][0], bc[a][1], m) for i, (g, A) in enumerate(T) for a in range(n) for m in {e[a] for e in es}}
    MU = {(i, a, m): pmom(A[a], bd[a][0], bd[a][1], m) for i, (g, A) in enumerate(U) for a in range(n) for m in {e[n + a] for e in es}}
    for i, (g, A) in enumerate(T):
        for j, (h, B) in enumerate(U):
            r = 0
            for e, co in K.t.items():
                f = Fr(1)
                for a in range(n): f *= MT[i, a, e[a]] * MU[j, a, e[n + a]]
                if f: r = r + co * num(env, f)
            r = r * v
            out.append((g, h, r / fac if not (isinstance(fac, int)) else r))
    return out

def semi(D, Kof, xs, d, u):
    """row of every point x (pattern coordinates, with its dof): integral of K(x, .) times the trial functions over leaf d"""
    env = D.env; U, fu = sidefun(D, u, d, None); bd = D.pat.box(d); n = D.dim; out = []
    for g, x, cx in xs:
        K = Kof(cx, d)
        for h, B in U:
            r = 0
            for e, co in K.t.items():
                f = Fr(1)
                for a in range(n): f *= x[a] ** e[a] * pmom(B[a], bd[a][0], bd[a][1], e[n + a])
                if f: r = r + co * num(env, f)
            r = r * D.vol()
            out.append((g, h, r / fu if not isinstance(fu, int) else r))
    return out

def dofpoints(F, leaves):
    """each dof with the position (pattern units) of its node and a leaf containing it"""
    out = {}
    for c in leaves:
        b = F.D.pat.box(c)
        for j, g in enumerate(F.gd(c)):
            out.setdefault(g, (tuple(lo + (hi - lo) * F.g[i] for i, (lo, hi) in zip(F.idx[j], b)), c))
    return [(g, x, c) for g, (x, c) in out.items()]

@balanced_only
def h_int(env, form='ip', dim=1, nx=1, ny=None, k=1, first=(), els=('Q1', 'Q1'), ders=((0,), (0,)), kind='poly', deg=1, ng=2, ns=1, flag=False, sub=None, kel=None, extra=False, subs=None):
    """subs: sub-mesh flags of (test, trial)"""
    fl = subs or (sub, sub)
    D = Dom(env, dim, nx, ny, (), k, first, subs=sorted({f for f in fl + (sub,) if f}))
    E = [Fe(D, els[0], fl[0]), Fe(D, els[1], fl[1])] if els[0] != els[1] or fl[0] != fl[1] else [Fe(D, els[0], fl[0])] * 2
    asm = M('assembler')
    FK = Fe(D, kel, sub) if kel else None
    f, lp = kernel2(env, D, kind, deg, ns, 'k', FK)
    L = D.leaves(sub)
    kw = dict(flag='R') if flag else {}
    bits = {c: env.mark(node(D.mesh, c), 'R', 'r%s' % '_'.join(map(str, c))) for c in L} if flag else {}
    t, u = (E[0], ders[0]), (E[1], ders[1])
    cls = asm.IPForm if form == 'ip' else asm.IIForm
    bt = E[0].basis(ders[0]); bu = E[1].basis(ders[1])
    K = f if isinstance(f, asm.Kernel) else asm.Kernel(f)
    fs = [cls(K, test=bt, trial=bu, **kw)]
    problems = [fs]
    if extra: problems = [[asm.Form(test=bt, trial=bu)], fs, [cls(K, test=bt, trial=bu, **kw)] + [asm.Form(kernel=2.5, test=bt, trial=bu)]]
    A = asm.Assembler(problems, D.mesh, subforest_flag=sub, n_gauss=ngauss(ng, dim)); A.assemble()
    S = [c for c in L if not flag or bool(bits[c])]
    for s in range(ns):
        terms = []
        for c in L:
            for d in L: terms += [(g, h, 0) for g in E[0].gd(D.anc(c, fl[0])) for h in E[1].gd(D.anc(d, fl[1]))]
        if form == 'ip':
            for c in S:
                for d in S: terms += double(D, lp(c, d, s), c, d, t, u)
        else:
            pts = dofpoints(E[0], D.leaves(fl[0]))
            for d in S: terms += semi(D, lambda c, e: lp(c, e, s), pts, d, u)
        compare(env, 'operator', A.get_matrix(1 if extra else 0, s), E[0].order(), E[1].order(), terms)
        if form == 'ip' and kind in ('sym', 'symflag', 'nodalsym', 'const', 'prodsym') and els[0] == els[1] and ders[0] == ders[1] and fl[0] == fl[1]:
            B = dense(A.get_matrix(1 if extra else 0, s)); env.eq('symmetric', B, B.T)
        if extra:
            mass = []
            for c in L: mass += local(D, D.const(1), c, D.pat.box(c), t, u)
            if s == 0: compare(env, 'mass next to it', A.get_matrix(0), E[0].order(), E[1].order(), mass)
            compare(env, 'sum of both', A.get_matrix(2, s), E[0].order(), E[1].order(), terms + [(g, h, v * 5 / 2) for g, h, v in mass])

def tasks(tier):
    T = []; th = tier != 'quick'
    def add(**c): T.append(('h_int', c))
    for form in ('ip', 'ii'):
        for el, ng in (('Q1', 2), ('Q2', 2), ('DQ1', 2), ('DQ0', 1)):
            for kind in ('poly', 'sym', 'symflag', 'const'):
                add(form=form, dim=1, nx=1, k=2, els=(el, el), kind=kind, deg=1, ng=ng)
                if el in ('Q1', 'DQ0') or th: add(form=form, dim=2, nx=2, ny=1, k=0, els=(el, el), kind=kind, deg=1, ng=ng)
            if el != 'DQ0':
                for kind in ('poly', 'symflag'):
                    add(form=form, dim=1, nx=2, k=1, els=(el, el), ders=(V, DX) if kind == 'poly' or form == 'ii' else (DX, DX), kind=kind, deg=1, ng=ng)
        for els in (('Q1', 'Q2'), ('Q2', 'Q1'), ('DQ0', 'Q1'), ('Q1', 'DQ0')):
            for kind in ('poly', 'symflag', 'const'): add(form=form, dim=1, nx=2, k=1, els=els, kind=kind, deg=1, ng=2)
        for kind in ('poly', 'symflag'):
            add(form=form, dim=1, nx=2, k=1, els=('Q1', 'Q1'), kind=kind, deg=1, ng=2, flag=True)
            add(form=form, dim=1, nx=2, k=1, first=((0,),), els=('Q1', 'Q1'), kind=kind, deg=1, ng=2, sub='sub')
            add(form=form, dim=1, nx=1, k=1, els=('Q1', 'Q1'), kind=kind, deg=1, ng=2, extra=True)
            add(form=form, dim=1, nx=1, k=1, first=((0,),), els=('Q1', 'Q1'), kind=kind, deg=1, ng=2, subs=('co', 'co'))
            add(form=form, dim=1, nx=1, k=1, first=((0,),), els=('Q1', 'Q1'), kind=kind, deg=1, ng=2, subs=('co', None))
            for ns in (2, 3): add(form=form, dim=1, nx=1, k=1, els=('Q1', 'Q1'), kind=kind, deg=1, ng=2, ns=ns, extra=(ns == 2))
            add(form=form, dim=1, nx=1, k=1, els=('DQ0', 'DQ0'), kind=kind, deg=1, ng=2, ns=2)
        for kind in ('prod', 'prodsym', 'sum3'):
            add(form=form, dim=1, nx=2, k=1, els=('Q1', 'Q1'), kind=kind, deg=1, ng=3, ns=2 if kind == 'sum3' else 1)
            add(form=form, dim=2, nx=2, ny=1, k=0, els=('DQ0', 'DQ0'), kind=kind, deg=1, ng=2)
        for kind in ('nodal', 'nodalsym'):
            for kel in ('Q1', 'Q2'):
                add(form=form, dim=1, nx=1, k=1, els=('Q1', 'Q1'), kind=kind, kel=kel, ng=3)
                add(form=form, dim=1, nx=1, k=1, els=('DQ0', 'Q1'), kind=kind, kel=kel, ng=3)
                if kel == 'Q1':
                    add(form=form, dim=1, nx=1, k=1, els=('Q1', 'Q1'), kind=kind, kel=kel, ng=3, ns=2)
                    add(form=form, dim=2, nx=1, ny=1, k=0, els=('Q1', 'Q1'), kind=kind, kel=kel, ng=2)
    for form in ('ip', 'ii'):
        for kind in ('poly', 'symflag'):
            add(form=form, dim=2, nx=1, ny=1, k=1, els=('Q1', 'Q1'), kind=kind, deg=1, ng=2)
            add(form=form, dim=2, nx=2, ny=1, k=1, els=('DQ0', 'Q1'), kind=kind, deg=1, ng=2)
            add(form=form, dim=2, nx=2, ny=1, k=0, els=('Q1', 'Q1'), kind=kind, deg=1, ng=2, flag=True)
            add(form=form, dim=2, nx=2, ny=1, k=0, els=('Q1', 'Q1'), ders=((1, 0), (1, 1)), kind=kind, deg=1, ng=2)
            add(form=form, dim=2, nx=1, ny=1, k=1, first=((0,),), els=('Q1', 'Q1'), kind=kind, deg=1, ng=2, sub='sub')
            add(form=form, dim=1, nx=2, k=3, els=('Q1', 'Q1'), kind=kind, deg=2, ng=3)
            add(form=form, dim=1, nx=1, k=2, els=('Q3', 'Q3'), kind=kind, deg=1, ng=3)
            if th:
                add(form=form, dim=2, nx=2, ny=2, k=1, els=('Q1', 'Q1'), kind=kind, deg=1, ng=2)
                add(form=form, dim=2, nx=1, ny=1, k=2, els=('Q1', 'Q1'), kind=kind, deg=1, ng=2)
                add(form=form, dim=2, nx=2, ny=1, k=0, els=('Q2', 'Q2'), kind=kind, deg=1, ng=3)
                add(form=form, dim=2, nx=2, ny=1, k=1, els=('Q2', 'Q1'), kind=kind, deg=1, ng=3)
                add(form=form, dim=1, nx=3, k=3, els=('Q2', 'Q2'), kind=kind, deg=2, ng=4)
                add(form=form, dim=1, nx=2, k=2, els=('Q1', 'Q1'), kind=kind, deg=1, ng=2, flag=True)
                add(form=form, dim=1, nx=2, k=2, first=((0,),), els=('Q1', 'Q1'), kind=kind, deg=1, ng=2, sub='sub', flag=True)
    return T
