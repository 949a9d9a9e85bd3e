"""Helpers shared by the harnesses.  Everything goes through the public API of the code under test."""
import sys, itertools
import numpy as np
from fractions import Fraction

def M(name):
    return sys.modules[name]

def poly_deg(dim, deg):
    """exponents of the tensor space Q_deg"""
    if dim == 1: return [(i,) for i in range(deg + 1)]
    return [(i, j) for i in range(deg + 1) for j in range(deg + 1)]

class Poly2(object):
    """polynomial with (symbolic) coefficients, for use as an oracle"""
    def __init__(self, exps, coefs): self.e = exps; self.c = coefs
    def __call__(self, *x):
        r = 0
        for e, c in zip(self.e, self.c):
            t = c
            for k, xi in zip(e, x):
                for _ in range(k): t = t * xi
            r = r + t
        return r
    def d(self, v):
        es, cs = [], []
        for e, c in zip(self.e, self.c):
            if e[v] > 0:
                f = list(e); f[v] -= 1
                es.append(tuple(f)); cs.append(c * e[v])
        return Poly2(es, cs)
    def integral(self, box):
        """exact integral over an axis-parallel box [(a,b),...]"""
        r = 0
        for e, c in zip(self.e, self.c):
            t = c
            for k, (a, b) in zip(e, box):
                t = t * (b ** (k + 1) - a ** (k + 1)) / (k + 1)
            r = r + t
        return r

def spoly(env, name, exps, lo=None, hi=None):
    return Poly2(exps, [env.real('%s_%s' % (name, '_'.join(map(str, e))), lo, hi) for e in exps])

def col(x): return np.array([[xi] for xi in x], dtype=object) if any_sym(x) else np.array([[float(xi)] for xi in x])

def any_sym(x):
    from symx.core import is_sym
    if isinstance(x, (list, tuple)): return any(any_sym(y) for y in x)
    if isinstance(x, np.ndarray): return x.dtype == object
    return is_sym(x)

def rows(pts):
    """array of points, one row each"""
    if any_sym(list(pts)):
        a = np.empty((len(pts), len(pts[0])), dtype=object)
        for i, p in enumerate(pts):
            for j, v in enumerate(p): a[i, j] = v
        return a
    return np.array([[float(v) for v in p] for p in pts])

def quad(mesh, pts, **kw):
    vs = [mesh.Vertex(tuple(p)) for p in pts]
    hes = [mesh.HalfEdge(vs[i], vs[(i + 1) % 4]) for i in range(4)]
    return mesh.QuadCell(hes, **kw)

# ---- formulas (work for symbolic and plain booleans alike)
def Or(*xs):
    r = False
    for x in xs:
        if x is True: return True
        r = x if r is False else (r | x)
    return r
def And(*xs):
    r = True
    for x in xs:
        if x is False: return False
        r = x if r is True else (r & x)
    return r
def Not(x):
    if x is True or x is False: return not x
    return ~x
def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, bool): return b if a else ~b
    if isinstance(b, bool): return a if b else ~a
    return a == b
def Imp(a, b): return Or(Not(a), b)
