"""numpy stand-in used inside the modules under test while they run symbolically.

Arrays are ordinary numpy arrays, of dtype object where floats would be; everything not listed here falls through to numpy.
"""
import math, numbers, builtins
import numpy as np
from fractions import Fraction
from . import core
from .core import SReal, SBool, S, is_sym, b_and, b_or, b_not, rel, radd, rneg, mkbool, tob, frac
from .poly import Rat, Poly

def is_obj(a):
    return isinstance(a, np.ndarray) and a.dtype == object

def has_sym(*xs):
    for x in xs:
        if isinstance(x, (SReal, SBool)): return True
        if isinstance(x, np.ndarray):
            if x.dtype == object and builtins.any(isinstance(e, (SReal, SBool)) for e in x.flat): return True
        elif isinstance(x, (list, tuple)):
            if has_sym(*x): return True
    return False

def has_obj(*xs):
    for x in xs:
        if isinstance(x, (SReal, SBool)): return True
        if isinstance(x, np.ndarray):
            if x.dtype == object: return True
        elif isinstance(x, (list, tuple)):
            if has_obj(*x): return True
    return False

def _floatish(dtype):
    return dtype is None or dtype in (float, np.float64, np.float32, 'float', 'float64', 'd', object) or dtype is np.double

def _mk(shape, val):
    a = np.empty(shape, dtype=object)
    a[...] = val
    return a

def elementwise(fn):
    def f(x, *args, **kw):
        if isinstance(x, np.ndarray):
            if x.dtype != object: return None
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape): out[i] = fn(x[i])
            return out
        return fn(x)
    return f

def _unary(name, symf):
    real = getattr(np, name)
    def one(e):
        if isinstance(e, (SReal, SBool)): return symf(S(e))
        if isinstance(e, Fraction): return symf(S(e))
        return float(real(e))
    ew = elementwise(one)
    def f(x, *a, **kw):
        if isinstance(x, (list, tuple)): x = arr(x)
        if isinstance(x, np.ndarray) and x.dtype != object: return real(x, *a, **kw)
        if not isinstance(x, np.ndarray) and not is_sym(x): return real(x, *a, **kw)
        return ew(x)
    return f

def arr(x, dtype=None, **kw):
    flt = dtype is not None and _floatish(dtype)
    if flt: dtype = None
    a = np.array(x, dtype=dtype, **kw)
    if flt and a.dtype.kind in 'iub': a = a.astype(float)          # a float array, as asked for
    return a.astype(object) if flt and a.dtype.kind == 'f' else a

def isclose_b(a, b, rtol=1e-05, atol=1e-08):
    """formula for |a-b| <= atol + rtol*|b| as a B / bool"""
    a, b = S(a), S(b)
    d = radd(a.r, rneg(b.r))
    sym = is_sym(atol) or is_sym(rtol)
    if d.num.is_zero() and not sym: return True
    atol, rtol = [t if is_sym(t) else frac(t) for t in (atol, rtol)]
    if not is_sym(rtol) and rtol == 0:
        t = S(atol).r
        return b_and(rel('le', radd(d, rneg(t))), rel('le', rneg(radd(d, t))))
    if b.r.is_const() and not sym:
        t = atol + rtol * builtins.abs(b.r.cval())
        t = Rat(Poly.const(t))
        return b_and(rel('le', radd(d, rneg(t))), rel('le', rneg(radd(d, t))))
    out = []
    for sgn in (1, -1):
        t = (S(atol) + S(rtol) * b * sgn).r
        out.append(b_and(rel('le', radd(d, rneg(t))), rel('le', rneg(radd(d, t)))))
    # |d|<=atol+rtol*|b|  <=> holds with |b|=b or with |b|=-b, as |b| = max(b,-b)
    return b_or(*out)

class LinalgShim(object):
    def __getattr__(self, n): return getattr(np.linalg, n)
    def norm(self, x, ord=None, axis=None, **kw):
        if not has_obj(x): return np.linalg.norm(x, ord, axis, **kw)
        x = np.asarray(x, dtype=object)
        if ord not in (None, 2, 'fro'):
            if ord == 1 and x.ndim == 1: return sum_(NP.abs(x))
            if ord == np.inf and x.ndim == 1: return NP.max(NP.abs(x))
            return np.linalg.norm(x.astype(float), ord, axis, **kw)
        if axis is None:
            return NP.sqrt(sum_(list((x * x).flat)))
        return NP.sqrt(np.sum(x * x, axis=axis))
    def det(self, a):
        if not has_obj(a): return np.linalg.det(a)
        a = np.asarray(a, dtype=object)
        if a.ndim > 2:
            out = np.empty(a.shape[:-2], dtype=object)
            for i in np.ndindex(out.shape): out[i] = self.det(a[i])
            return out
        n = a.shape[0]
        if n == 1: return a[0, 0]
        if n == 2: return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        r = 0
        for j in range(n):
            m = np.delete(np.delete(a, 0, 0), j, 1)
            r = r + (-1) ** j * a[0, j] * self.det(m)
        return r
    def inv(self, a):
        if not has_obj(a): return np.linalg.inv(a)
        return exact_solve(np.asarray(a, dtype=object), np.eye(len(a)).astype(object))
    def solve(self, a, b):
        if not has_obj(a, b): return np.linalg.solve(a, b)
        return exact_solve(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    def eigvals(self, M):
        if not has_obj(M): return np.linalg.eigvals(M)
        M = np.asarray(M, dtype=object)
        if M.shape == (1, 1): return np.array([M[0, 0]], dtype=object)
        if M.shape == (2, 2):
            # contract: roots of the characteristic polynomial (real for symmetric input)
            tr = M[0, 0] + M[1, 1]; disc = (M[0, 0] - M[1, 1]) ** 2 + 4 * M[0, 1] * M[1, 0]
            s = NP.sqrt(disc)
            return np.array([(tr - s) / 2, (tr + s) / 2], dtype=object)
        return np.linalg.eigvals(M.astype(float))

def sum_(xs):
    r = 0
    for x in np.asarray(xs, dtype=object).flat: r = r + x
    return r

def exact_solve(A, b):
    """Gaussian elimination over the rational functions (pivot: first entry that can be non-zero)"""
    n = A.shape[0]
    A = A.copy(); b = b.copy()
    one = b.ndim == 1
    if one: b = b[:, None]
    for i in range(n):
        for p in range(i, n):
            e = S(A[p, i])
            if e.r.num.is_zero(): continue
            if e.r.is_const() or bool(e != 0): break
        else:
            raise np.linalg.LinAlgError('Singular matrix')
        if p != i:
            A[[i, p]] = A[[p, i]]; b[[i, p]] = b[[p, i]]
        inv = 1 / S(A[i, i])
        for r in range(n):
            if r != i and not S(A[r, i]).r.num.is_zero():
                f = S(A[r, i]) * inv
                A[r] = A[r] - f * A[i]; b[r] = b[r] - f * b[i]
    out = np.empty(b.shape, dtype=object)
    for i in range(n): out[i] = b[i] / S(A[i, i])
    return out[:, 0] if one else out

def lin_solve(A, b):
    """stub of a linear solver: exact where that stays small, otherwise the solution is fresh unknowns and the
    equations are recorded in CTX.lin_eqs (one polynomial per equation, zero at the solution)"""
    n = A.shape[0]; one = b.ndim == 1
    if one: b = b[:, None]
    A = [[S(e) for e in r] for r in A]; B = [[S(e) for e in r] for r in b]; m = len(B[0]) if n else b.shape[1]
    x = [[None] * m for _ in range(n)]
    rows = list(range(n)); cols = list(range(n))
    if not all(A[i][j].r.is_const() for i in rows for j in cols):
        go = True
        while go and len(rows) > 1:
            go = False
            for i in rows:
                nz = [j for j in cols if not A[i][j].r.num.is_zero()]
                if len(nz) != 1: continue
                j = nz[0]; zero = all(v.r.num.is_zero() for v in B[i])
                if not (zero or A[i][j].r.is_const()): continue
                if zero and not A[i][j].r.is_const(): core.CTX.lin_singles.append(A[i][j])
                x[j] = [S(0.0) for v in B[i]] if zero else [v / A[i][j] for v in B[i]]
                rows.remove(i); cols.remove(j)
                for r in rows:
                    if not A[r][j].r.num.is_zero() and not zero: B[r] = [v - A[r][j] * q for v, q in zip(B[r], x[j])]
                go = True
                break
    if rows and (all(A[i][j].r.is_const() for i in rows for j in cols)):
        sub = exact_solve(np.array([[A[i][j] for j in cols] for i in rows], dtype=object).reshape(len(rows), len(rows)), np.array([B[i] for i in rows], dtype=object).reshape(len(rows), m))
        for k, j in enumerate(cols): x[j] = list(sub[k])
    elif rows:
        for c in range(m):
            k = len(core.CTX.lin_eqs)
            for j in cols: x[j][c] = SReal(Rat(Poly.var(core.CTX.newvar('x#%d_%d' % (k, j)))))
            for i in rows:
                e = -B[i][c]
                for j in cols:
                    if not A[i][j].r.num.is_zero(): e = e + A[i][j] * x[j][c]
                core.CTX.lin_eqs.append(e.r.num)
    out = np.empty((n, m), dtype=object)
    for j in range(n): out[j] = x[j]
    return out[:, 0] if one else out

class NPShim(object):
    """looked up as `np` inside the modules under test"""
    linalg = LinalgShim()
    def __getattr__(self, n): return getattr(np, n)
    # creation
    def zeros(self, shape, dtype=None, **kw):
        return _mk(shape, 0.0) if _floatish(dtype) else np.zeros(shape, dtype=dtype, **kw)
    def ones(self, shape, dtype=None, **kw):
        return _mk(shape, 1.0) if _floatish(dtype) else np.ones(shape, dtype=dtype, **kw)
    def empty(self, shape, dtype=None, **kw):
        return _mk(shape, 0.0) if _floatish(dtype) else np.empty(shape, dtype=dtype, **kw)
    def full(self, shape, val, dtype=None, **kw):
        if dtype is None and isinstance(val, (bool, np.bool_, int, np.integer)): return np.full(shape, val, **kw)
        return _mk(shape, val) if _floatish(dtype) else np.full(shape, val, dtype=dtype, **kw)
    def zeros_like(self, a, dtype=None, **kw):
        a = np.asarray(a)
        if dtype is None and a.dtype.kind in 'ib': return np.zeros_like(a)
        return self.zeros(a.shape, dtype)
    def ones_like(self, a, dtype=None, **kw):
        a = np.asarray(a)
        if dtype is None and a.dtype.kind in 'ib': return np.ones_like(a)
        return self.ones(a.shape, dtype)
    def empty_like(self, a, dtype=None, **kw): return self.zeros_like(a, dtype)
    def full_like(self, a, v, dtype=None, **kw): return self.full(np.shape(a), v, dtype)
    def eye(self, n, m=None, *a, **kw): return np.eye(n, m, *a, **kw).astype(object)
    def identity(self, n, **kw): return np.eye(n).astype(object)
    def array(self, x, dtype=None, **kw): return arr(x, dtype, **kw)
    def asarray(self, x, dtype=None, **kw):
        if isinstance(x, np.ndarray) and (dtype is None or (_floatish(dtype) and x.dtype == object)): return x
        return arr(x, dtype)
    def asfarray(self, x): return self.asarray(x)
    def ascontiguousarray(self, x, dtype=None): return self.asarray(x, dtype)
    def atleast_1d(self, x): return np.atleast_1d(x)
    def linspace(self, a, b, num=50, endpoint=True, **kw):
        if not has_sym(a, b): return np.linspace(a, b, num, endpoint=endpoint, **kw)
        if isinstance(num, SReal): num = num.__index__()
        div = (num - 1) if endpoint else num
        out = np.empty(num, dtype=object)
        for i in range(num):
            out[i] = a + (b - a) * Fraction(i, div) if div else a
        return out
    def arange(self, *a, **kw):
        if not has_sym(*a): return np.arange(*a, **kw)
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        out = []; x = lo
        while bool(x < hi):
            out.append(x); x = x + st
            if len(out) > 64: raise core.SymUnsupported('arange')
        return np.array(out, dtype=object)
    # comparisons with tolerance
    def isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not has_obj(a, b) and not is_sym(rtol) and not is_sym(atol): return np.isclose(a, b, rtol, atol, equal_nan)
        a = np.asarray(a, dtype=object); b = np.asarray(b, dtype=object)
        bc = np.broadcast(a, b)
        out = np.empty(bc.shape, dtype=bool)
        A, Bb = np.broadcast_arrays(a, b)
        for i in np.ndindex(bc.shape):
            out[i] = bool(mkbool(isclose_b(A[i], Bb[i], rtol, atol)))
        return out if bc.shape else bool(out[()])
    def allclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not has_obj(a, b) and not is_sym(rtol) and not is_sym(atol): return np.allclose(a, b, rtol, atol, equal_nan)
        a = np.asarray(a, dtype=object); b = np.asarray(b, dtype=object)
        A, Bb = np.broadcast_arrays(a, b)
        return bool(mkbool(b_and(*[isclose_b(A[i], Bb[i], rtol, atol) for i in np.ndindex(A.shape)])))
    def array_equal(self, a, b, **kw):
        if not has_obj(a, b): return np.array_equal(a, b)
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.asarray(a == b, dtype=bool)))
    def isnan(self, x):
        if not has_obj(x): return np.isnan(x)
        if isinstance(x, np.ndarray):
            out = np.zeros(x.shape, dtype=bool)
            for i in np.ndindex(x.shape):
                e = x[i]; out[i] = isinstance(e, float) and math.isnan(e)
            return out
        return False
    def isfinite(self, x):
        if not has_obj(x): return np.isfinite(x)
        return ~self.isnan(x)
    def isinf(self, x):
        if not has_obj(x): return np.isinf(x)
        return np.zeros(np.shape(x), dtype=bool)
    def isscalar(self, x): return isinstance(x, (SReal,)) or np.isscalar(x)
    def iscomplexobj(self, x): return False
    def isreal(self, x): return np.ones(np.shape(x), dtype=bool)
    # reductions
    def mean(self, a, axis=None, **kw):
        if not has_obj(a): return np.mean(a, axis=axis, **kw)
        a = np.asarray(a, dtype=object)
        n = a.size if axis is None else a.shape[axis]
        return np.sum(a, axis=axis) * Fraction(1, n) if not isinstance(np.sum(a, axis=axis), (int, float)) else np.sum(a, axis=axis) / n
    def average(self, a, axis=None, **kw): return self.mean(a, axis) if has_obj(a) else np.average(a, axis, **kw)
    def all(self, a, axis=None, **kw):
        if has_obj(a): a = self._boolarr(a)
        return np.all(a, axis=axis, **kw)
    def any(self, a, axis=None, **kw):
        if has_obj(a): a = self._boolarr(a)
        return np.any(a, axis=axis, **kw)
    def _boolarr(self, a):
        a = np.asarray(a, dtype=object)
        out = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(a.shape): out[i] = bool(a[i])
        return out
    def logical_and(self, a, b, **kw):
        return np.logical_and(self._boolarr(a) if has_obj(a) else a, self._boolarr(b) if has_obj(b) else b)
    def logical_or(self, a, b, **kw):
        return np.logical_or(self._boolarr(a) if has_obj(a) else a, self._boolarr(b) if has_obj(b) else b)
    def logical_not(self, a, **kw): return np.logical_not(self._boolarr(a) if has_obj(a) else a)
    def where(self, c, *a):
        if has_obj(c): c = self._boolarr(c)
        if a and has_obj(*a):
            a = [np.asarray(x, dtype=object) for x in a]
        return np.where(c, *a)
    def argwhere(self, c): return np.argwhere(self._boolarr(c) if has_obj(c) else c)
    def nonzero(self, c): return np.nonzero(self._boolarr(c) if has_obj(c) else c)
    def count_nonzero(self, c): return np.count_nonzero(self._boolarr(c) if has_obj(c) else c)
    def unique(self, a, **kw):
        return np.unique(a, **kw)
    # elementwise
    sqrt = staticmethod(_unary('sqrt', lambda e: e.sqrt()))
    exp = staticmethod(_unary('exp', lambda e: e.exp()))
    log = staticmethod(_unary('log', lambda e: e.log()))
    sin = staticmethod(_unary('sin', lambda e: e.sin()))
    cos = staticmethod(_unary('cos', lambda e: e.cos()))
    abs = staticmethod(_unary('abs', lambda e: builtins.abs(e)))
    absolute = abs
    fabs = abs
    floor = staticmethod(_unary('floor', lambda e: e.floor()))
    sign = staticmethod(_unary('sign', lambda e: 0.0 if bool(e == 0) else (1.0 if bool(e > 0) else -1.0)))
    def square(self, x): return x * x
    def power(self, x, n): return np.power(x, n) if not has_obj(x, n) else x ** n
    def hypot(self, a, b): return np.hypot(a, b) if not has_obj(a, b) else self.sqrt(a * a + b * b)
    def remainder(self, a, b): return np.remainder(a, b)
    def mod(self, a, b): return np.mod(a, b)
    # products
    def cross(self, a, b, **kw):
        if not has_obj(a, b): return np.cross(a, b, **kw)
        a = np.asarray(a, dtype=object); b = np.asarray(b, dtype=object)
        if a.shape[-1] == 2 and b.shape[-1] == 2:
            return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
        return np.cross(a, b, **kw)
    def bincount(self, x, weights=None, minlength=0):
        if weights is None or not has_obj(weights): return np.bincount(x, weights, minlength)
        x = np.asarray(x); n = builtins.max(int(x.max()) + 1 if x.size else 0, minlength)
        out = _mk(n, 0.0)
        for i, w in zip(x, np.asarray(weights, dtype=object)): out[i] = out[i] + w
        return out
    def einsum(self, *a, **kw):
        if has_obj(*a):
            kw['optimize'] = False
            a = [np.asarray(x, dtype=object) if isinstance(x, np.ndarray) else x for x in a]
        return np.einsum(*a, **kw)
    def interp(self, *a, **kw): return np.interp(*a, **kw)
    def nan_to_num(self, x, **kw): return x if has_obj(x) else np.nan_to_num(x, **kw)
    def issubdtype(self, a, b):
        if a == object and b in (float, np.floating, np.number): return True
        return np.issubdtype(a, b)
    def real(self, x): return x if has_obj(x) else np.real(x)

NP = NPShim()
