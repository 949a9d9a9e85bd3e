"""Oracle side of the linear-system checks: constraints from the geometry, the projected equations, obligations modulo the solver's equations."""
import numpy as np
from fractions import Fraction as Fr
from .common import M, spoly, poly_deg, And, Or, Not, any_sym
from .asmu import *
from .A04 import dofpoints

# ---------------------------------------------------------------- obligations modulo linear equations
def reduce_span(r, eqs):
    """r as a rational combination of eqs (up to rounding noise), None if it is none"""
    rows = []
    for n, e in enumerate(eqs):
        t = dict(e.t); w = {n: Fr(1)}
        for m, row, v in rows:
            c = t.get(m)
            if c: t = _axpy(t, -c, row); w = _axpy(w, -c, v)
        if not t: continue
        m = max(t, key=lambda k: abs(t[k])); inv = 1 / t[m]
        rows.append((m, {k: x * inv for k, x in t.items()}, {k: x * inv for k, x in w.items()}))
    t = dict(r.t); sc = max([abs(v) for v in t.values()] + [Fr(1)]); w = {}
    for m, row, v in rows:
        c = t.get(m)
        if c: t = _axpy(t, -c, row); w = _axpy(w, c, v)
    if any(abs(v) > sc * Fr(1, 10**9) for v in t.values()): return None
    from symx.poly import Poly
    q = Poly(t)
    for n, c in w.items(): q = q.add(eqs[n].scale(c))
    return q

def _axpy(t, c, row):
    t = dict(t)
    for k, v in row.items():
        s = t.get(k, 0) + c * v
        if s: t[k] = s
        else: t.pop(k, None)
    return t

def strip(b):
    """a condition without the coefficients at rounding-noise level"""
    from symx.core import b_not, b_or, b_and, b_rel
    from symx.poly import Poly
    if b is True or b is False or b.op == 'var': return b
    if b.op == 'not': return b_not(strip(b.args[0]))
    if b.op in ('and', 'or'): return (b_and if b.op == 'and' else b_or)(*[strip(a) for a in b.args])
    t = b.args[0].t; sc = max(abs(v) for v in t.values())
    u = {}; same = True
    for k, v in t.items():
        w = v / sc; q = w.limit_denominator(10000)
        if abs(q - w) <= Fr(1, 10**9):
            same &= q == w; w = q
        if w: u[k] = w
    return b if same else b_rel(b.op, Poly(u))

def atoms(b, out):
    if b is True or b is False or b.op == 'var': return
    if b.op in ('not', 'and', 'or'):
        for a in b.args: atoms(a, out)
    elif b.args[0].degree() == 1: out.append(b.args[0])

def implied(ctx):
    """linear equalities implied by the path condition (up to rounding noise), as substitutions var -> polynomial"""
    from symx.core import b_not, b_rel
    from symx.poly import Poly
    key = tuple(c.id for c in ctx.pc); memo = ctx.__dict__.setdefault('implied_memo', {})
    if key in memo: return memo[key]
    pc = [strip(c) for c in ctx.pc]; cand = []
    for c in pc: atoms(c, cand)
    sub = {}; seen = set()
    for q in cand:
        q = psubs(q, sub)
        if q.is_const(): continue
        n = q.primitive()[1]
        if n in seen: continue
        seen.add(n); g = b_not(b_rel('eq', n)); vs = set(g.vars); cs = [g]; rest = [c for c in pc if c is not True and c is not False]; go = True
        while go:
            go = False
            for c in list(rest):
                if c.vars & vs: cs.append(c); vs |= c.vars; rest.remove(c); go = True
        if ctx._solve(cs)[0] != 'unsat': continue
        v = max(v for v in n.vars()); k = n.t[((v, 1),)]
        r = Poly({m: -c / k for m, c in n.t.items() if m != ((v, 1),)})
        sub = {w: psubs(f, {v: r}) for w, f in sub.items()}; sub[v] = r
    memo[key] = sub
    return sub

def psubs(p, sub):
    from symx.poly import Poly
    if not sub or not (p.vars() & set(sub)): return p
    r = Poly({})
    for m, c in p.t.items():
        q = Poly({tuple((v, e) for v, e in m if v not in sub): c})
        for v, e in m:
            if v in sub: q = q.mul(sub[v].pow(e))
        r = r.add(q)
    return r

class Duty(object):
    """obligations `value = 0` that hold given the equations of the linear-solver stub: the value is a rational combination of
    the equations, modulo equalities implied by the path condition; where it is not, the solver decides it for several choices
    of the matrix symbols `syms()`"""
    def __init__(self, env, syms): self.env = env; self.syms = syms
    def zero(self, label, r, scale=1):
        env = self.env
        if not env.symbolic:
            env.close(label, float(r) / max(1.0, float(scale)), 0.0, 1e-6); return
        from symx.core import S, b_not, b_or, b_and, b_rel, tob
        from symx.poly import Rat
        ctx = env.ctx; p = S(r).r.num
        q = p if p.is_zero() else reduce_span(p, ctx.lin_eqs)
        if q is None:
            sub = implied(ctx)
            if sub: p2 = psubs(p, sub); q = reduce_span(p2, [psubs(e, sub) for e in ctx.lin_eqs]); p2 = p2 if q is not None else p
        else: p2 = p
        if q is not None: env.prove(label, True); env.ident.append((Rat(p2), Rat(q))); ctx.st.inc('mod_equations'); return
        ctx.st.inc('pinned')
        xs = list(self.syms()); eqs = [b_rel('eq', e) for e in ctx.lin_eqs]; done = 0
        for k in range(3):
            if k == 2 and (done or ctx._need_model() is None): continue
            if k == 2: pin = [x == x.r.num.evaluate(ctx.model) for x in xs if x.r.num.vars() <= set(ctx.model)]
            else: pin = [x == (Fr((5 * i * i + 3 * i) % 11 - 5, 20) if k else 0) for i, x in enumerate(xs)]
            hyp = b_and(*[tob(c) for c in pin])
            if ctx.check(hyp)[0] != 'sat': continue
            done += 1; env.prove(label, b_or(b_not(b_and(hyp, *eqs)), b_rel('eq', p)))
        if not done: env.prove(label, b_or(b_not(b_and(*eqs)), b_rel('eq', p)))
    def same(self, label, x, y): self.zero(label, x - y, abs(y) if not self.env.symbolic else 1)
    def regular(self, label, pins):
        """the divisors met by the solver do not vanish (for some regular systems: pins)"""
        env = self.env
        if not env.symbolic: return
        from symx.core import b_not, b_or, b_and, tob
        hyp = b_and(*[tob(c) for c in pins()])
        for d in env.ctx.lin_singles: env.prove(label, b_or(b_not(hyp), tob(d != 0)))

# ---------------------------------------------------------------- constraints
def hanging(F):
    """hanging dofs of the space: dof -> [(dof of the coarse cell, weight)]"""
    D = F.D; out = {}
    if D.dim == 1: return out
    L = D.leaves(F.flag); n = (D.pat.nx, D.pat.ny)
    for g, x, c in dofpoints(F, L):
        for sh in D.pat.shifts():
            y = tuple(a + s for a, s in zip(x, sh))
            for d in L:
                b = D.pat.box(d)
                if g in F.gd(d) or not all(lo <= v <= hi for v, (lo, hi) in zip(y, b)): continue
                w = []
                for j, h in enumerate(F.gd(d)):
                    v = Fr(1)
                    for a, f in enumerate(F.fun(d, j)): v *= peval(f, y[a])
                    if v: w.append((h, v))
                out[g] = w
    return out

def sides(D, inner=False):
    """boundary pieces of the domain (or: pieces of the interior lines between roots)"""
    if inner:
        if D.dim == 1: return [('v', i) for i in range(1, D.pat.nx)]
        return [(0, j, i) for j in range(1, D.pat.ny) for i in range(D.pat.nx)] + [(1, j, i) for j in range(1, D.pat.nx) for i in range(D.pat.ny)]
    if D.dim == 1: return [('v', 0), ('v', D.pat.nx)] if not D.pat.per else []
    out = []
    if 1 not in D.pat.per: out += [(0, 0, i) for i in range(D.pat.nx)] + [(0, D.pat.ny, i) for i in range(D.pat.nx)]
    if 0 not in D.pat.per: out += [(1, 0, i) for i in range(D.pat.ny)] + [(1, D.pat.nx, i) for i in range(D.pat.ny)]
    return out

def mark_bnd(env, D, label, name, groups=None, inner=False):
    """mark boundary entities: a bit for each boundary piece (or each group of them); returns {piece: bit}"""
    ps = sides(D, inner); bits = {}
    if groups == 'one':
        bits = {p: (p == env_choice(env, name, ps)) for p in ps}
    elif isinstance(groups, tuple): bits = {p: (i in groups) for i, p in enumerate(ps)}
    elif groups == 'line':
        ls = {}
        for p in ps: ls.setdefault(p[:2], env.bit('%s%s_%s' % ((name,) + p[:2])) if p[:2] not in ls else None)
        bits = {p: ls[p[:2]] for p in ps}
    else:
        for k, p in enumerate(ps): bits[p] = env.bit('%s%d' % (name, k))
    for c in D.pat.cells:
        nd = node(D.mesh, c)
        if D.dim == 1:
            lo, hi = D.pat.box(c)[0]
            for v, x in zip(nd.get_vertices(), (lo, hi)):
                if ('v', x) in bits and not v.is_marked(label): env.markall([v], label, bits['v', x])
        else:
            hes = nd.get_half_edges()
            for k in range(4):
                a, line, lo, hi = D.pat.side(c, k)
                for p, b in bits.items():
                    if p[0] == a and p[1] == line and p[2] <= lo and hi <= p[2] + 1: env.markall([hes[k]], label, b)
    return bits

def dir_dofs(F, bits):
    """dofs on the closed marked boundary pieces, with their positions"""
    D = F.D; on = [p for p, b in bits.items() if bool(b)]; out = {}
    for g, x, c in dofpoints(F, D.leaves(F.flag)):
        for p in on:
            for sh in D.pat.shifts():
                y = tuple(a + s for a, s in zip(x, sh))
                if D.dim == 1: hit = y[0] == p[1]
                else: hit = y[1 - p[0]] == p[1] and p[2] <= y[p[0]] <= p[2] + 1
                if hit: out[g] = x
    return out

def nil(a): return type(a) is int and a == 0

class Cons(object):
    """all constraints of a space: u = T v + d"""
    def __init__(self, F, dirv, hang=None):
        """dirv: {dof: value}"""
        self.F = F; self.dir = dict(dirv); self.hang = hanging(F) if hang is None else hang
        self.order = F.order(); self.pos = {g: i for i, g in enumerate(self.order)}
        self.free = [g for g in self.order if g not in self.dir and g not in self.hang]
        self.memo = {}
    def row(self, g):
        """free dof -> weight of the unconstrained function in dof g"""
        if g not in self.memo:
            if g in self.dir: r = {}
            elif g in self.hang:
                r = {}
                for h, w in self.hang[g]:
                    for f, v in self.row(h).items(): r[f] = r.get(f, 0) + v * w
            else: r = {g: Fr(1)}
            self.memo[g] = r
        return self.memo[g]
    def check(self, duty, tag, u, A, b):
        """u: column of values in basis order"""
        env = duty.env; n = len(self.order)
        for g, v in self.dir.items(): duty.same(tag + 'Dirichlet value', u[self.pos[g]], v)
        for g, w in self.hang.items():
            if g not in self.dir: duty.same(tag + 'hanging node', u[self.pos[g]], sum((u[self.pos[h]] * num(env, c) for h, c in w), 0))
        res = []
        for i in range(n):
            r = -b[i]
            for j in range(n):
                a = A[i][j]
                if not nil(a): r = r + a * u[j]
            res.append(r)
        cols = {}
        for g in self.order:
            for f, w in self.row(g).items(): cols.setdefault(f, []).append((self.pos[g], w))
        sc = 1 if env.symbolic else max([1.0] + [abs(float(v)) for v in u] + [abs(float(v)) for v in b])
        for f in self.free:
            duty.zero(tag + 'projected equation', sum((res[i] * num(env, w) for i, w in cols[f]), 0), sc)
    def regular(self, env, A):
        """concrete runs: skip (nearly) singular projected systems"""
        if env.symbolic or not self.free: return
        n = len(self.order); T = np.zeros((n, len(self.free)))
        for g in self.order:
            for f, w in self.row(g).items(): T[self.pos[g], self.free.index(f)] = float(w)
        R = T.T @ np.array([[float(a) for a in r] for r in A]) @ T
        env.assume(np.linalg.cond(R) < 1e5)

def env_choice(env, name, ps):
    return env.choice(name, ps)

# ---------------------------------------------------------------- data
def base(i, j, n, sym, salt=0):
    if i == j: return Fr(n + 6) + Fr(salt * (i + 2), 5)
    if sym: i, j = min(i, j), max(i, j)
    return Fr((3 * i + 5 * j + 2 * salt) % 7 - 3, 4)

class Mat(object):
    """matrix of arbitrary real entries: a fixed regular one plus symbols"""
    def __init__(self, env, n, name='a', sym=False, pattern=None):
        self.env = env; self.n = n; self.sym = sym; self.s = {}; self.salt = int('0' + ''.join(c for c in name if c.isdigit()))
        self.a = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if sym and j < i: self.a[i][j] = self.a[j][i]; continue
                if pattern is not None and (i, j) not in pattern: continue
                self.s[i, j] = env.real('%s_%d_%d' % (name, i, j))
                self.a[i][j] = self.s[i, j] + num(env, base(i, j, n, sym, self.salt))
    def coo(self, fmt='coo'):
        from scipy import sparse
        sp = M('solver').sparse
        ij = [(i, j) for i in range(self.n) for j in range(self.n) if not nil(self.a[i][j])]
        v = [self.a[i][j] for i, j in ij]
        m = sp.coo_matrix((np.array(v, dtype=object) if self.env.symbolic else v, ([i for i, j in ij], [j for i, j in ij])), shape=(self.n, self.n))
        return m.asformat(fmt)
    def syms(self): return list(self.s.values())
    def pins2(self, free):
        """a regular projected system whose diagonal entries are free to vanish"""
        out = []
        for (i, j), x in self.s.items():
            if i == j: continue
            v = Fr(0)
            if i in free and j in free and len(free) > 1:
                p, q = free.index(i), free.index(j)
                if (p + 1) % len(free) == q or (self.sym and (q + 1) % len(free) == p): v = Fr(7)
            out.append(x == v - base(i, j, self.n, self.sym, self.salt))
        return out
    def unchanged(self, label, m):
        self.env.eq(label, dense(m), np.array(self.a, dtype=object))
