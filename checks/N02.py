"""N02: explicit and constant maps evaluate their rules point by point, sample by sample."""
import numpy as np
from .common import M, rows, spoly, poly_deg, any_sym
MODS = ['mesh', 'fem', 'function']
BOUNDS = ('1-3 points with unbounded symbolic coordinates in one and two dimensions, passed in every documented way (number, tuple, vertex, lists of those, arrays); '
          'functions of one and two variables; 1-3 samples given as lists of rules, lists of parameters or both, polynomial rules of degree 2 per variable with symbolic '
          'coefficients and symbolic parameters; every kind of later change of rules and parameters (add, replace one, replace all), two functions built from the same lists; '
          'constants with 1-3 symbolic samples')
OUTSIDE = 'rules that are not functions of the points and parameters alone; empty lists of points'
ASSUMPTIONS = 'a rule maps (n,dim) arrays to n values (vector or one column)'

def point(env, name, dim): return tuple(env.real('%s%d' % (name, k)) for k in range(dim))

def forms(dim):
    one = ['tuple', 'vertex', 'row', 'vec'] + (['number'] if dim == 1 else [])
    many = ['tuples', 'vertices', 'array', 'arrays'] + (['vector', 'numbers'] if dim == 1 else [])
    return one, many

def vec(p): 
    if any_sym(list(p)):
        a = np.empty(len(p), dtype=object)
        for i, v in enumerate(p): a[i] = v
        return a
    return np.array([float(v) for v in p])

def pack(form, pts, dim):
    V = M('mesh').Vertex; p = pts[0]
    if form == 'tuple': return p
    if form == 'vertex': return V(p)
    if form == 'row': return rows([p])
    if form == 'vec': return vec(p)
    if form == 'number': return p[0]
    if form == 'tuples': return list(pts)
    if form == 'vertices': return [V(q) for q in pts]
    if form == 'array': return rows(pts)
    if form == 'arrays': return [vec(q) for q in pts]
    if form == 'vector': return vec([q[0] for q in pts])
    if form == 'numbers': return [q[0] for q in pts]

class Rule(object):
    """polynomial in all coordinates plus the parameters a (added) and b (times the first coordinate)"""
    def __init__(self, env, name, dim, nv, colm):
        self.q = spoly(env, name, [e for e in poly_deg(2, 2)] if dim * nv > 1 else poly_deg(1, 3))
        self.dim = dim; self.nv = nv; self.colm = colm; self.calls = 0
    def at(self, pts, a, b):
        xs = [c for p in pts for c in p]
        if len(xs) == 4: xs = [xs[0] + 2 * xs[3], xs[1] - 3 * xs[2]]
        return self.q(*xs) + a + b * xs[0]
    def fn(self, k):
        """a plain function with the wanted number of arguments"""
        def ev(xs, a, b):
            self.calls += 1
            n = xs[0].shape[0]
            for x in xs:
                if x.shape != (n, self.dim): raise ValueError('a rule gets (n_points, dim) arrays')
            out = [self.at([tuple(x[i, :]) for x in xs], a, b) for i in range(n)]
            v = vec(out)
            return v[:, None] if self.colm else v
        if self.nv == 1: return lambda x, a=0, b=0: ev([x], a, b)
        return lambda x, y, a=0, b=0: ev([x, y], a, b)

def check(env, f, R, P, X, pts, tag=''):
    """R rules, P parameters, per sample"""
    n = len(pts)
    env.prove('samples' + tag, f.n_samples() == len(R), (f.n_samples(), len(R)))
    v = f.eval(X)
    env.prove('one row per point, one column per sample' + tag, np.shape(v) == (n, len(R)), np.shape(v))
    for i in range(n):
        for s in range(len(R)):
            env.eq('rule s at point i' + tag, v[i, s], R[s].at(pts[i], P[s].get('a', 0), P[s].get('b', 0)), (i, s))

def setup(env, dim, nv, form, n):
    one, many = forms(dim)
    if form in one: n = 1
    pts = [[point(env, 'p%d%d' % (i, v), dim) for v in range(nv)] for i in range(n)]
    X = [pack(form, [p[v] for p in pts], dim) for v in range(nv)]
    return pts, X[0] if nv == 1 else tuple(X)

def par(env, name): return {'a': env.real(name + 'a'), 'b': env.real(name + 'b')}

def build(env, mode, dim, nv, colm, cls):
    F = M('function').Explicit
    if mode == 'one':
        r = Rule(env, 'r', dim, nv, colm); p = par(env, 'p')
        return F(r.fn(nv), parameters=p, dim=dim, n_variables=nv), [r], [p]
    if mode == 'plain':
        r = Rule(env, 'r', dim, nv, colm)
        return F(r.fn(nv), dim=dim, n_variables=nv), [r], [{}]
    if mode == 'rules':
        R = [Rule(env, 'r%d' % k, dim, nv, colm ^ (k & 1)) for k in range(3)]; p = par(env, 'p')
        return F([r.fn(nv) for r in R], parameters=p, dim=dim, n_variables=nv), R, [p] * 3
    if mode == 'params':
        r = Rule(env, 'r', dim, nv, colm); P = [par(env, 'p%d' % k) for k in range(3)]; P[1] = {'a': P[1]['a']}
        return F(r.fn(nv), parameters=P, dim=dim, n_variables=nv), [r] * 3, P
    R = [Rule(env, 'r%d' % k, dim, nv, colm) for k in range(2)]; P = [par(env, 'p%d' % k) for k in range(2)]
    return F([r.fn(nv) for r in R], parameters=list(P), dim=dim, n_variables=nv), R, P

def h_eval(env, dim=1, nv=1, form='array', n=2, mode='both', colm=False):
    pts, X = setup(env, dim, nv, form, n)
    f, R, P = build(env, mode, dim, nv, colm, None)
    check(env, f, R, P, X, pts)
    env.prove('dimension', f.dim() == dim and f.n_variables() == nv)

def h_change(env, dim=2, nv=1, mode='both', n=2):
    pts, X = setup(env, dim, nv, 'array', n)
    f, R, P = build(env, mode, dim, nv, False, None)
    R, P = list(R), [dict(p) for p in P]
    for step in range(2):
        op = env.choice('op%d' % step, ['add', 'rule', 'par', 'parall', 'all'])
        new = Rule(env, 'n%d' % step, dim, nv, False); p = par(env, 'q%d' % step)
        if step == 1 or env.choice('keys', [2, 1]) == 1: p.pop('ab'[step])
        q = dict(p)
        k = env.choice('k%d' % step, range(len(R))) if op in ('rule', 'par') else None
        if op == 'add': f.add_rule(new.fn(nv), parameters=p); R.append(new); P.append(q)
        elif op == 'rule': f.set_rules(new.fn(nv), parameters=p, pos=k); R[k] = new; P[k] = q
        elif op == 'par': f.set_parameters(p, pos=k); P[k] = q
        elif op == 'parall': f.set_parameters(p); P = [q] * len(R)
        else:
            f.set_rules([new.fn(nv), R[0].fn(nv)], [p, {}]); R = [new, R[0]]; P = [q, {}]
        check(env, f, R, P, X, pts, ' after ' + op)

def h_shared(env, dim=1, nv=1):
    """two functions built from the same lists do not influence each other"""
    F = M('function').Explicit
    pts, X = setup(env, dim, nv, 'array', 1)
    R = [Rule(env, 'r%d' % k, dim, nv, False) for k in range(3)]; P = [par(env, 'p%d' % k) for k in range(3)]
    fs = [r.fn(nv) for r in R[:2]]; ps = list(P[:2]); P = [dict(p) for p in P]
    f = F(fs, parameters=ps, dim=dim, n_variables=nv); g = F(fs, parameters=ps, dim=dim, n_variables=nv)
    op = env.choice('op', ['add', 'rule', 'par', 'callers list'])
    if op == 'add': f.add_rule(R[2].fn(nv), P[2])
    elif op == 'rule': f.set_rules(R[2].fn(nv), P[2], pos=0)
    elif op == 'par': f.set_parameters(P[2], pos=1)
    else: fs.append(R[2].fn(nv)); fs[0] = R[2].fn(nv); ps[1] = P[2]
    check(env, g, R[:2], P[:2], X, pts, ' other function')
    h = F(R[0].fn(nv), dim=dim, n_variables=nv); h2 = F(R[1].fn(nv), dim=dim, n_variables=nv)
    h.add_rule(R[2].fn(nv), P[2])
    check(env, h2, [R[1]], [{}], X, pts, ' default parameters')
    check(env, h, [R[0], R[2]], [{}, P[2]], X, pts, ' added to')

def h_const(env, dim=2, nv=1, form='array', ns=2):
    C = M('function').Constant
    pts, X = setup(env, dim, nv, form, 3)
    n = len(pts)
    c = [env.real('c%d' % k) for k in range(ns)]
    how = env.choice('data', ['array'] + (['number'] if ns == 1 else []))
    f = C(data=vec(c) if how == 'array' else c[0], n_variables=nv)
    env.prove('samples', f.n_samples() == ns)
    v = f.eval(X)
    env.prove('shape', np.shape(v) == (n, ns), np.shape(v))
    for i in range(n): env.eq('constant', [v[i, s] for s in range(ns)], c)

def tasks(tier):
    th = tier != 'quick'; T = []
    for dim in (1, 2):
        one, many = forms(dim)
        for nv in (1, 2):
            for form in one + many:
                for mode in ('plain', 'one', 'rules', 'params', 'both'):
                    if nv == 2 and mode in ('plain', 'rules') and not th: continue
                    ns = (2, 3) if mode in ('one', 'both') else (2,)
                    if form in one: ns = (1,)
                    elif form in ('array', 'vector', 'tuples'): ns = (1,) + ns
                    T += [('h_eval', dict(dim=dim, nv=nv, form=form, mode=mode, n=n, colm=(len(T) % 2 == 0))) for n in ns]
                for ns in (1, 2, 3):
                    # a bare 2-vector is documented as ambiguous: constants know no dimension
                    T.append(('h_const', dict(dim=dim, nv=nv, form=form, ns=ns)))
            for mode in ('one', 'rules', 'params', 'both'): T.append(('h_change', dict(dim=dim, nv=nv, mode=mode)))
            T.append(('h_shared', dict(dim=dim, nv=nv)))
    return [t for t in T if not (t[0] == 'h_const' and t[1]['form'] == 'vec')]
