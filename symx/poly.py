"""Exact multivariate polynomials and rational functions over Q.

Poly:   dict  monomial -> Fraction ; monomial = tuple of (var, exp) sorted by var.
Rat:    num / prod(f_i ^ e_i), the denominator kept factored.
"""
from fractions import Fraction
from math import gcd

_ONE = ()

def _mmul(a, b):
    if not a: return b
    if not b: return a
    if len(a) == 1 and len(b) == 1:
        (v, e), (w, f) = a[0], b[0]
        if v == w: return ((v, e + f),)
        return (a[0], b[0]) if v < w else (b[0], a[0])
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))

def _mdiv(a, b):
    """a / b if divisible, else None"""
    if not b: return a
    d = dict(a)
    for v, e in b:
        k = d.get(v, 0) - e
        if k < 0: return None
        if k: d[v] = k
        else: d.pop(v)
    return tuple(sorted(d.items()))

def _mkey(m):
    # graded order key
    return (sum(e for _, e in m), m)


class Poly(object):
    __slots__ = ('t', '_h', '_vars', '_z')
    def __init__(self, t):
        self.t = t; self._h = None; self._vars = None; self._z = None
    @staticmethod
    def const(c):
        return Poly({_ONE: c}) if c else ZERO
    @staticmethod
    def var(i):
        return Poly({((i, 1),): Fraction(1)})
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and _ONE in t)
    def cval(self):
        return self.t.get(_ONE, Fraction(0))
    def is_zero(self):
        return not self.t
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)
    def vars(self):
        if self._vars is None:
            self._vars = frozenset(v for m in self.t for v, _ in m)
        return self._vars
    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)
    def add(self, o):
        if not self.t: return o
        if not o.t: return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            s = r.get(m)
            if s is None: r[m] = c
            else:
                s = s + c
                if s: r[m] = s
                else: del r[m]
        return Poly(r) if r else ZERO
    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})
    def sub(self, o):
        return self.add(o.neg())
    def scale(self, k):
        if not k: return ZERO
        if k == 1: return self
        return Poly({m: c * k for m, c in self.t.items()})
    def mul(self, o):
        if not self.t or not o.t: return ZERO
        if self.is_const(): return o.scale(self.cval())
        if o.is_const(): return self.scale(o.cval())
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = _mmul(m, n)
                s = r.get(k)
                r[k] = c * d if s is None else s + c * d
        r = {k: v for k, v in r.items() if v}
        return Poly(r) if r else ZERO
    def pow(self, n):
        r = Poly.const(Fraction(1)); b = self
        while n:
            if n & 1: r = r.mul(b)
            b = b.mul(b) if n > 1 else b
            n >>= 1
        return r
    def lead(self):
        return max(self.t, key=_mkey)
    def divexact(self, o):
        """self/o if exact else None"""
        if o.is_const(): return self.scale(1 / o.cval())
        if not self.t: return self
        # quick reject
        if not (o.vars() <= self.vars()): return None
        lo = _lexlead(o); co = o.t[lo]
        r = dict(self.t); q = {}
        steps = 0
        while r:
            steps += 1
            if steps > 5000: return None
            m = max(r, key=_lexkey)
            k = _mdiv(m, lo)
            if k is None: return None
            c = r[m] / co
            q[k] = c
            for n, d in o.t.items():
                mm = _mmul(k, n)
                s = r.get(mm, 0) - c * d
                if s: r[mm] = s
                else: r.pop(mm, None)
        return Poly(q)
    def content(self):
        """positive rational c with self/c primitive integer"""
        g = 0; l = 1
        for c in self.t.values():
            g = gcd(g, c.numerator); l = l * c.denominator // gcd(l, c.denominator)
        return Fraction(g, l) if g else Fraction(1)
    def primitive(self):
        """(k, p) with self = k*p, p primitive integer with positive leading coeff"""
        if not self.t: return Fraction(1), self
        k = self.content()
        if self.t[self.lead()] < 0: k = -k
        return k, (self if k == 1 else self.scale(1 / k))
    def evaluate(self, val):
        s = 0
        for m, c in self.t.items():
            p = c
            for v, e in m:
                p = p * val[v] ** e
            s = s + p
        return s
    def subs(self, val):
        """substitute a dict var->Fraction partially"""
        r = {}
        for m, c in self.t.items():
            k = []
            for v, e in m:
                if v in val: c = c * val[v] ** e
                else: k.append((v, e))
            if c:
                k = tuple(k)
                s = r.get(k, 0) + c
                if s: r[k] = s
                else: r.pop(k, None)
        return Poly(r)
    def diff(self, v):
        r = {}
        for m, c in self.t.items():
            d = dict(m)
            e = d.get(v, 0)
            if e:
                if e == 1: d.pop(v)
                else: d[v] = e - 1
                k = tuple(sorted(d.items()))
                r[k] = r.get(k, 0) + c * e
        return Poly({k: c for k, c in r.items() if c})
    def __repr__(self):
        return 'Poly(%s)' % ' + '.join('%s*%s' % (c, m) for m, c in list(self.t.items())[:6])

def _lexkey(m):
    # pure lexicographic with smaller var index more significant; needs total order compatible with mult.
    return tuple((-v, e) for v, e in m)

def _lexlead(p):
    return max(p.t, key=_lexkey)

ZERO = Poly({})
ONE = Poly({_ONE: Fraction(1)})


class Rat(object):
    """num / prod(den): den = tuple of (Poly primitive, exp)"""
    __slots__ = ('num', 'den')
    def __init__(self, num, den=()):
        self.num = num; self.den = den
    def is_const(self):
        return not self.den and self.num.is_const()
    def cval(self):
        return self.num.cval()
    def denpoly(self):
        p = ONE
        for f, e in self.den: p = p.mul(f.pow(e))
        return p
    def denodd(self):
        p = ONE
        for f, e in self.den:
            if e & 1: p = p.mul(f)
        return p

def _cancel(num, den):
    if not num.t: return Rat(ZERO)
    if not den: return Rat(num)
    out = []
    for f, e in den:
        while e:
            q = num.divexact(f)
            if q is None: break
            num = q; e -= 1
        if e: out.append((f, e))
    return Rat(num, tuple(out))

def radd(a, b):
    if not a.den and not b.den: return Rat(a.num.add(b.num))
    if a.den == b.den: return _cancel(a.num.add(b.num), a.den)
    da, db = dict(a.den), dict(b.den)
    l = dict(da)
    for f, e in db.items(): l[f] = max(l.get(f, 0), e)
    na, nb = a.num, b.num
    for f, e in l.items():
        k = e - da.get(f, 0)
        if k: na = na.mul(f.pow(k))
        k = e - db.get(f, 0)
        if k: nb = nb.mul(f.pow(k))
    return _cancel(na.add(nb), tuple(l.items()))

def rneg(a): return Rat(a.num.neg(), a.den)

def rmul(a, b):
    if not a.den and not b.den: return Rat(a.num.mul(b.num))
    if a.is_const():
        k = a.cval()
        return Rat(b.num.scale(k), b.den) if k else Rat(ZERO)
    if b.is_const():
        k = b.cval()
        return Rat(a.num.scale(k), a.den) if k else Rat(ZERO)
    # cross-cancel first
    x = _cancel(a.num, b.den); y = _cancel(b.num, a.den)
    d = dict(x.den)
    for f, e in y.den: d[f] = d.get(f, 0) + e
    return Rat(x.num.mul(y.num), tuple(d.items())) if x.num.t and y.num.t else Rat(ZERO)

def rinv(a):
    """1/a ; a.num nonzero"""
    n = a.num
    if n.is_const():
        p = a.denpoly()
        return Rat(p.scale(1 / n.cval()))
    k, p = n.primitive()
    num = a.denpoly().scale(1 / k)
    return _cancel(num, factor(p))

def factor(p):
    """cheap factorisation: pull out common monomial factors, each variable separately"""
    out = []
    common = None
    for m in p.t:
        d = dict(m)
        common = d if common is None else {v: min(e, d[v]) for v, e in common.items() if v in d}
        if not common: break
    if common:
        mono = tuple(sorted(common.items()))
        p = Poly({_mdiv(m, mono): c for m, c in p.t.items()})
        for v, e in mono: out.append((Poly.var(v), e))
    # perfect squares are not detected; fine
    if not p.is_const(): out.append((p, 1))
    return tuple(out)
