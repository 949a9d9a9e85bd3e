"""Symbolic values and path exploration.

The real code of /repo/src runs with SReal/SBool values in place of numbers.  bool(SBool) is a branch: both sides are
checked for feasibility with Z3 under the current path condition and the run is repeated for each feasible side
(depth-first re-execution).  Obligations are discharged with Z3 under the path condition.
"""
import numbers, time, math, signal, os
from fractions import Fraction
import numpy as np
import z3
from .poly import Poly, Rat, ZERO, ONE, radd, rneg, rmul, rinv

class Infeasible(BaseException):
    """current path is infeasible / assumed away"""
class PathLimit(BaseException):
    pass
class TimeUp(BaseException):
    pass
class SymUnsupported(Exception):
    pass

CTX = None            # current context

# ---------------------------------------------------------------- conversion of constants
_fl_cache = {}
def frac(x):
    """exact value given to a Python/numpy number.  Floats within 1e-14 relative of a rational with denominator
    <= 10^5 are read as that rational (0.1 is one tenth), other floats exactly."""
    if isinstance(x, Fraction): return x
    if isinstance(x, (bool, np.bool_)): return Fraction(int(x))
    if isinstance(x, (int, np.integer)): return Fraction(int(x))
    x = float(x)
    r = _fl_cache.get(x)
    if r is None:
        if math.isnan(x) or math.isinf(x):
            raise SymUnsupported('non-finite float in symbolic arithmetic')
        f = Fraction(x)
        r = f
        if f.denominator != 1:
            for lim in (1000, 100000):
                g = f.limit_denominator(lim)
                if abs(g - f) <= abs(f) * Fraction(1, 10**14):
                    r = g; break
            else:
                # decimal literals such as 1e-8
                s = repr(x)
                if 'e' in s and len(s) <= 8:
                    r = Fraction(s)
        _fl_cache[x] = r
    return r

# ---------------------------------------------------------------- boolean expressions (hash-consed tuples)
_b_intern = {}
class B(object):
    __slots__ = ('op', 'args', 'vars', '_z', 'id', 'lin')
    def __repr__(self): return 'B%s%r' % (self.op, self.args)

def _mk(op, args, vs, lin):
    k = (op, args)
    b = _b_intern.get(k)
    if b is None:
        b = B(); b.op = op; b.args = args; b.vars = vs; b._z = None; b.id = len(_b_intern); b.lin = lin
        _b_intern[k] = b
    return b

def b_rel(op, p):
    """op in lt, le, eq : p op 0"""
    if p.is_const():
        c = p.cval()
        return c < 0 if op == 'lt' else c <= 0 if op == 'le' else c == 0
    k, q = p.primitive()
    if k < 0 and op != 'eq':
        q = q.neg()
    return _mk(op, (q,), q.vars(), q.degree() <= 1)
def b_var(i):
    return _mk('var', (i,), frozenset([i]), True)
def b_not(b):
    if b is True: return False
    if b is False: return True
    if b.op == 'not': return b.args[0]
    if b.op == 'lt': return b_rel('le', b.args[0].neg())
    if b.op == 'le': return b_rel('lt', b.args[0].neg())
    return _mk('not', (b,), b.vars, b.lin)
def _nary(op, bs):
    stop = (op == 'or')
    out = []
    for b in bs:
        if b is stop: return stop
        if b is (not stop): continue
        if b.op == op: out.extend(b.args)
        else: out.append(b)
    seen = []; ids = set()
    for b in out:
        if b.id not in ids: ids.add(b.id); seen.append(b)
    if not seen: return not stop
    if len(seen) == 1: return seen[0]
    seen.sort(key=lambda b: b.id)
    return _mk(op, tuple(seen), frozenset().union(*[b.vars for b in seen]), all(b.lin for b in seen))
def b_and(*bs): return _nary('and', bs)
def b_or(*bs): return _nary('or', bs)

def b_eval(b, val):
    if b is True or b is False: return b
    op = b.op
    if op == 'var': return bool(val[b.args[0]])
    if op == 'not': return not b_eval(b.args[0], val)
    if op == 'and': return all(b_eval(a, val) for a in b.args)
    if op == 'or': return any(b_eval(a, val) for a in b.args)
    p = b.args[0].evaluate(val)
    return p < 0 if op == 'lt' else p <= 0 if op == 'le' else p == 0


# ---------------------------------------------------------------- symbolic values
class SBool(object):
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def __bool__(self): return CTX.decide(self.b)
    def __invert__(self): return mkbool(b_not(self.b))
    def __and__(self, o): return mkbool(b_and(self.b, tob(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(b_or(self.b, tob(o)))
    __ror__ = __or__
    def __xor__(self, o):
        o = tob(o)
        return mkbool(b_or(b_and(self.b, b_not(o)), b_and(b_not(self.b), o)))
    __rxor__ = __xor__
    def logical_not(self): return ~self
    def __eq__(self, o): return ~(self ^ o)
    def __ne__(self, o): return self ^ o
    def __hash__(self): return hash(bool(self))
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __repr__(self): return 'SBool(%r)' % (self.b,)

def mkbool(b):
    return b if (b is True or b is False) else SBool(b)
def tob(x):
    if isinstance(x, SBool): return x.b
    if isinstance(x, B): return x
    return bool(x)

def is_sym(x):
    return isinstance(x, (SReal, SBool))

def lift(x):
    if type(x) is SReal: return x.r
    if isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_)):
        return Rat(Poly.const(frac(x)))
    if isinstance(x, SBool):
        return Rat(Poly.const(Fraction(int(bool(x)))))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


class SReal(object):
    """symbolic real: an exact rational function of the context's variables"""
    __slots__ = ('r',)
    def __init__(self, r): self.r = r
    # arithmetic
    def _bin(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0: return NotImplemented
        if isinstance(o, (float, np.floating)) and not math.isfinite(o): return self._nonfinite(float(o), f)
        l = lift(o)
        if l is None: return NotImplemented
        return SReal(f(self.r, l))
    def _nonfinite(self, o, f):
        if math.isnan(o): return o
        if f is rmul:
            if bool(self == 0): return math.nan
            return o if bool(self > 0) else -o
        if f is radd: return o
        raise SymUnsupported('infinity in symbolic arithmetic')
    def __add__(self, o): return self._bin(o, radd)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: radd(a, rneg(b)))
    def __rsub__(self, o): return self._bin(o, lambda a, b: radd(b, rneg(a)))
    def __mul__(self, o): return self._bin(o, rmul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: rmul(a, _inv(b)))
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: rmul(b, _inv(a)))
    def __neg__(self): return SReal(rneg(self.r))
    def __pos__(self): return self
    def __pow__(self, n):
        if isinstance(n, SReal):
            if n.r.is_const(): n = n.r.cval()
            else: return CTX.func('pow', self, n)
        n = frac(n)
        if n.denominator == 1:
            n = int(n)
            r = self.r
            if n < 0: r = _inv(r); n = -n
            q = Rat(r.num.pow(n), tuple((f, e * n) for f, e in r.den)) if n else Rat(ONE)
            if n > 1 and len(r.num.t) == 1 and CTX.sqrt_of and any(v in CTX.sqrt_of for m in r.num.t for v, e in m): q = CTX.reduce(q)
            return SReal(q)
        if n.denominator == 2:
            s = self.sqrt()
            return s ** int(n * 2)
        return CTX.func('pow', self, SReal(Rat(Poly.const(n))))
    def __rpow__(self, o):
        if self.r.is_const(): return SReal(lift(o)) ** self.r.cval()
        return CTX.func('pow', SReal(lift(o)), self)
    def __floordiv__(self, o):
        q = self / o
        return CTX.floor(q)
    def __rfloordiv__(self, o):
        return CTX.floor(SReal(lift(o)) / self)
    def __mod__(self, o):
        return self - o * (self // o)
    def __rmod__(self, o):
        return SReal(lift(o)) % self
    def __floor__(self): return CTX.floor(self)
    def floor(self): return CTX.floor(self)
    def __abs__(self):
        if self.r.is_const():
            return SReal(Rat(Poly.const(abs(self.r.cval()))))
        return self if bool(self >= 0) else -self
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    # comparisons
    def _cmp(self, o, op, swap=False):
        if isinstance(o, np.ndarray) and o.ndim > 0: return NotImplemented
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            big = o > 0
            if op == 'eq': return False
            return big if not swap else not big
        l = lift(o)
        if l is None: return NotImplemented
        d = radd(self.r, rneg(l)) if not swap else radd(l, rneg(self.r))
        return mkbool(rel(op, d))
    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'lt', True)
    def __ge__(self, o): return self._cmp(o, 'le', True)
    def __eq__(self, o): 
        if o is None or isinstance(o, (str, tuple, list)): return False
        return self._cmp(o, 'eq')
    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)): return True
        r = self._cmp(o, 'eq')
        if r is NotImplemented: return r
        return (not r) if isinstance(r, bool) else ~r
    def __hash__(self):
        return hash(self.r.num)
    def __bool__(self): 
        r = (self != 0)
        return bool(r)
    # functions numpy calls on object elements
    def sqrt(self): return CTX.sqrt(self)
    def exp(self): return CTX.func('exp', self)
    def log(self): return CTX.func('log', self)
    def sin(self): return CTX.func('sin', self)
    def cos(self): return CTX.func('cos', self)
    def tan(self): return CTX.func('sin', self) / CTX.func('cos', self)
    def isnan(self): return False
    def isfinite(self): return True
    def __float__(self):
        if self.r.is_const(): return float(self.r.cval())
        return float(CTX.concretize(self))
    def __int__(self):
        if self.r.is_const(): return int(self.r.cval())
        return int(CTX.concretize(self))
    def __index__(self):
        if self.r.is_const() and self.r.cval().denominator == 1: return int(self.r.cval())
        raise TypeError('symbolic real used as an index')
    def __round__(self, n=None):
        return round(float(self), n)
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    def __repr__(self):
        try: return 'S<%s>' % CTX.show(self)
        except Exception: return 'S<?>'
    def __format__(self, spec):
        return repr(self)

numbers.Real.register(SReal)

def _inv(r):
    if r.num.is_zero():
        raise ZeroDivisionError('symbolic division by zero')
    if not r.num.is_const():
        z = b_rel('eq', r.num)
        if CTX.decide(z):
            raise ZeroDivisionError('symbolic division by zero is reachable')
    return rinv(r)

def rel(op, d):
    """relation  d op 0  for a rational function"""
    if not d.den: return b_rel(op, d.num)
    if op == 'eq': return b_rel('eq', d.num)
    sgn = ONE
    for f, e in d.den:
        if e & 1 and not CTX.known_pos(f):
            sgn = sgn.mul(f)
    return b_rel(op, d.num.mul(sgn))

def S(x):
    return x if isinstance(x, SReal) else SReal(lift(x))


# ---------------------------------------------------------------- context
class Counter(object):
    def __init__(self):
        self.d = {}
    def inc(self, k, n=1): self.d[k] = self.d.get(k, 0) + n
    def __getitem__(self, k): return self.d.get(k, 0)


class Obligation(object):
    __slots__ = ('label', 'status', 'model')


_NAMES = []; _KIND = []; _ZV = []; _BYNAME = {}     # variables (shared by all contexts of the process)

class Ctx(object):
    QUERY_MS = 8000
    def __init__(self, stats=None, deadline=None):
        self.st = stats or Counter()
        self.deadline = deadline
        self.names = _NAMES; self.kind = _KIND; self.zv = _ZV
        self.byname = _BYNAME
        self.pc = []; self.pcset = set()
        self.trail = []       # decisions to replay: list of (value, has_alt)
        self.pos = 0
        self.new_trail = []
        self.model = None     # dict var->Fraction satisfying pc (rational, exact) or None
        self.cache = {}
        self.defs = {}
        self.pos_polys = set()
        self.degraded = []
        self.unknowns = 0
        self.max_decisions = 4000
        self.ident_seen = set()

    # -- path lifecycle
    def start_path(self, trail):
        self.pc = []; self.pcset = set(); self.trail = trail; self.pos = 0
        self.new_trail = []
        self.model = {}
        self.path_vars = {}
        self.path_funcs = {}
        self.pos_polys = set()
        self.path_degraded = False
        self.hist = []
        self.sqrt_of = {}        # square-root variable -> its square
        self.eigs = []           # eigendecompositions declared by the harness (spshim.plan_eigh)
        self.lin_eqs = []; self.lin_singles = []       # equations and divisors of the linear-solver stub
    def newvar(self, name, kind='real'):
        i = self.byname.get(name)
        if i is None:
            i = len(self.names)
            self.byname[name] = i
            self.names.append(name); self.kind.append(kind)
            self.zv.append(z3.Bool(name) if kind == 'bool' else z3.Real(name))
        self.path_vars[name] = i
        if self.model is not None and i not in self.model:
            self.model[i] = Fraction(0) if kind != 'bool' else False
        return i
    # -- z3 translation
    def zpoly(self, p):
        if p._z is None:
            ts = []
            for m, c in p.t.items():
                e = None
                for v, k in m:
                    for _ in range(k):
                        e = self.zv[v] if e is None else e * self.zv[v]
                q = z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)
                ts.append(q if e is None else (e if c == 1 else q * e))
            p._z = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        return p._z
    def z(self, b):
        if b is True: return z3.BoolVal(True)
        if b is False: return z3.BoolVal(False)
        if b._z is None:
            op = b.op
            if op == 'var': r = self.zv[b.args[0]]
            elif op == 'not': r = z3.Not(self.z(b.args[0]))
            elif op == 'and': r = z3.And([self.z(a) for a in b.args])
            elif op == 'or': r = z3.Or([self.z(a) for a in b.args])
            else:
                p = self.zpoly(b.args[0])
                r = p < 0 if op == 'lt' else p <= 0 if op == 'le' else p == 0
            b._z = r
        return b._z
    # -- solving
    def slice(self, cond_vars):
        """path-condition constraints connected with the given variables"""
        vs = set(cond_vars); out = []
        rest = list(self.pc)
        changed = True
        while changed and rest:
            changed = False
            nr = []
            for c in rest:
                if c.vars & vs:
                    out.append(c); vs |= c.vars; changed = True
                else: nr.append(c)
            rest = nr
        return out
    def _solve(self, cs, want_model=False, ms=None):
        """sat / unsat / unknown for the conjunction cs (list of B)"""
        key = frozenset(c.id for c in cs)
        hit = self.cache.get(key)
        if hit is not None and (not want_model or hit[0] != 'sat' or hit[1] is not None):
            return hit
        t = time.time()
        lin = all(c.lin for c in cs)
        ms = ms or self.QUERY_MS
        res = None; model = None
        if lin:
            s = z3.SimpleSolver()
            s.set('timeout', ms)
            for c in cs: s.add(self.z(c))
            r = s.check()
        else:
            s = z3.Tactic('qfnra-nlsat').solver() if not any(self.kind[v] == 'bool' for c in cs for v in c.vars) else z3.Solver()
            s.set('timeout', ms)
            for c in cs: s.add(self.z(c))
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            if r == z3.unknown:
                s = z3.Solver(); s.set('timeout', ms)
                for c in cs: s.add(self.z(c))
                r = s.check()
        self.st.inc('queries'); self.st.inc('solver_s', time.time() - t)
        if not lin: self.st.inc('nonlinear_queries')
        if r == z3.sat:
            m = s.model(); model = {}; exact = True
            for c in cs:
                for v in c.vars:
                    if v in model: continue
                    e = m.eval(self.zv[v], model_completion=True)
                    if self.kind[v] == 'bool': model[v] = z3.is_true(e)
                    elif z3.is_rational_value(e):
                        model[v] = Fraction(e.numerator_as_long(), e.denominator_as_long())
                    else:
                        a = e.approx(20)
                        model[v] = Fraction(a.numerator_as_long(), a.denominator_as_long()); exact = False
            out = ('sat', model, exact)
        elif r == z3.unsat: out = ('unsat', None, True)
        else:
            out = ('unknown', None, True); self.st.inc('unknown')
        self.cache[key] = out
        return out
    def check(self, cond, ms=None):
        """is pc and cond satisfiable?  returns (status, model of the slice, exact)"""
        if cond is False: return ('unsat', None, True)
        if cond is True:
            return ('sat', {}, True)
        cs = self.slice(cond.vars) + [cond]
        return self._solve(cs, ms=ms)
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise TimeUp()
    def _holds_in_model(self, b):
        if self.model is None: return None
        try: return b_eval(b, self.model)
        except KeyError: return None
    def _add(self, b):
        if b is True: return
        if b.op == 'and':
            for a in b.args: self._add(a)
            return
        if b.id in self.pcset: return
        self.pc.append(b); self.pcset.add(b.id)
        if b.op == 'lt':   # p<0 : remember -p positive
            k, q = b.args[0].neg().primitive()
            if k > 0: self.pos_polys.add(q)
    def known_pos(self, f):
        if f in self.pos_polys: return True
        # sums of positives with positive coefficients / products
        try:
            return all(c > 0 and all((Poly.var(v) in self.pos_polys or e % 2 == 0) for v, e in m) for m, c in f.t.items()) and \
                any(all(Poly.var(v) in self.pos_polys for v, e in m) for m in f.t)
        except Exception:
            return False
    def _commit(self, b, res=None):
        """add constraint b known to be feasible; update the model"""
        self._add(b)
        if self.model is not None:
            h = self._holds_in_model(b)
            if h: return
            if res is not None and res[0] == 'sat' and res[2]:
                m = dict(self.model); m.update(res[1])
                self.model = m
                return
            self.model = None
    def _need_model(self):
        """try to recover an exact model of the pc"""
        if self.model is None and self.pc:
            m = {}
            for i in self.path_vars.values(): m[i] = Fraction(0) if self.kind[i] != 'bool' else False
            seen = set()
            for c in self.pc:
                if c.id in seen: continue
                comp = self.slice(c.vars)
                seen |= {d.id for d in comp}
                r = self._solve(comp)
                if r[0] != 'sat' or not r[2]: return None
                m.update(r[1])
            self.model = m
        return self.model
    def decide(self, b):
        if b is True or b is False: return b
        if b.id in self.pcset: return True
        nb = b_not(b)
        if nb is True or nb is False: return not nb
        if nb.id in self.pcset: return False
        self.tick()
        if self.pos < len(self.trail):
            v, alt = self.trail[self.pos]; self.pos += 1
            self.new_trail.append((v, alt))
            c = b if v else nb
            if alt is None: pass          # forced: implied by pc, no need to add
            else:
                self._add(c)
                if self._holds_in_model(c) is not True:
                    self.model = None
            return v
        self._need_model()
        # new decision
        if len(self.new_trail) > self.max_decisions: raise PathLimit()
        self.st.inc('branch_queries')
        h = self._holds_in_model(b)
        rt = rf = None
        if h is True: rt = ('sat', {}, True)
        elif h is False: rf = ('sat', {}, True)
        if rt is None: rt = self.check(b)
        if rt[0] == 'unsat':
            self.new_trail.append((False, None)); self.trail.append((False, None)); self.pos += 1
            return False
        if rf is None: rf = self.check(nb)
        if rf[0] == 'unsat':
            self.new_trail.append((True, None)); self.trail.append((True, None)); self.pos += 1
            return True
        if rt[0] == 'unknown' or rf[0] == 'unknown': self.unknowns += 1
        self.st.inc('forks')
        v = True
        if h is False: v = False     # follow the known model first
        self.new_trail.append((v, True)); self.trail.append((v, True)); self.pos += 1
        self._commit(b if v else nb, rt if v else rf)
        return v
    def assume(self, cond):
        b = tob(cond)
        if b is True: return
        if b is False: raise Infeasible()
        if b.id in self.pcset: return
        if self.pos < len(self.trail) or self._holds_in_model(b):
            # replaying: feasibility was established before
            self._add(b)
            if self._holds_in_model(b) is not True: self.model = None
            return
        r = self.check(b)
        if r[0] == 'unsat': raise Infeasible()
        self._commit(b, r)
    # -- definitional functions
    def sqrt(self, x):
        if x.r.is_const():
            c = x.r.cval()
            if c < 0: raise ValueError('sqrt of negative')
            n, d = c.numerator, c.denominator
            a, b = math.isqrt(n), math.isqrt(d)
            if a * a == n and b * b == d: return SReal(Rat(Poly.const(Fraction(a, b))))
        # sqrt of a perfect square of a known term?
        sq = _poly_sqrt(x.r)
        if sq is not None:
            s = SReal(sq)
            return s if bool(s >= 0) else -s
        key = ('sqrt', x.r.num, x.r.den)
        if key in self.defs: i = self.defs[key]
        else:
            i = self.newvar('sqrt#%d' % len(self.defs)); self.defs[key] = i
        fresh = self.names[i] not in self.path_vars
        self.newvar(self.names[i])
        self.sqrt_of[i] = x.r
        if fresh or not any(c.op == 'eq' and i in c.vars for c in self.pc):
            if bool(x < 0): raise ValueError('sqrt of negative value is reachable')
            s = Poly.var(i)
            self._add(b_rel('le', s.neg()))
            d = radd(Rat(s.mul(s)), rneg(x.r))
            self._add(b_rel('eq', d.num))
            if b_rel('eq', x.r.num) is not True and bool(x > 0):
                self._add(b_rel('lt', s.neg()))
            self.model = None
        return SReal(Rat(Poly.var(i)))
    def reduce(self, r):
        """rational function with even powers of square-root variables replaced by what they are the root of"""
        for _ in range(20):
            for i in sorted(self.sqrt_of, reverse=True):
                if any(v == i and e > 1 for m in r.num.t for v, e in m): break
            else: return r
            by = {}
            for m, c in r.num.t.items():
                e = dict(m).get(i, 0); k = tuple((v, g) for v, g in m if v != i)
                if e % 2: k = tuple(sorted(k + ((i, 1),)))
                t = by.setdefault(e // 2, {}); t[k] = t.get(k, 0) + c
            out = Rat(ZERO); x = self.sqrt_of[i]; pw = Rat(ONE); at = 0
            for h in sorted(by):
                while at < h: pw = rmul(pw, x); at += 1
                out = radd(out, rmul(Rat(Poly({k: c for k, c in by[h].items() if c})), pw))
            r = Rat(ONE, r.den); r = rmul(out, r)
        return r
    def func(self, name, *args):
        """uninterpreted real function, congruent by normal form and by solver-checked equality of arguments"""
        args = [S(a) for a in args]
        if all(a.r.is_const() for a in args):
            if name == 'exp' and args[0].r.cval() == 0: return SReal(Rat(ONE))
            if name == 'log' and args[0].r.cval() == 1: return SReal(Rat(ZERO))
            if name == 'cos' and args[0].r.cval() == 0: return SReal(Rat(ONE))
            if name == 'sin' and args[0].r.cval() == 0: return SReal(Rat(ZERO))
        key = (name,) + tuple((a.r.num, a.r.den) for a in args)
        i = self.defs.get(key)
        if i is None:
            # congruence with earlier applications on this path
            i = self.newvar('%s#%d' % (name, len(self.defs)))
            self.defs[key] = i
        if self.names[i] not in self.path_vars or (name, i) not in self._funcs():
            self.newvar(self.names[i])
            x = Poly.var(i)
            for (n2, j), a2 in list(self._funcs().items()):
                if n2 == name and len(a2) == len(args) and j != i:
                    cond = b_and(*[rel('eq', radd(a.r, rneg(b.r))) for a, b in zip(args, a2)])
                    imp = b_or(b_not(cond), b_rel('eq', x.sub(Poly.var(j))))
                    if imp is not True: self._add(imp)
                    if name in ('exp', 'log') :
                        lt = rel('lt', radd(args[0].r, rneg(a2[0].r)))
                        gt = rel('lt', radd(a2[0].r, rneg(args[0].r)))
                        for c, e in ((lt, b_rel('lt', x.sub(Poly.var(j)))), (gt, b_rel('lt', Poly.var(j).sub(x)))):
                            im = b_or(b_not(c), e)
                            if im is not True: self._add(im)
            if name == 'exp':
                self._add(b_rel('lt', x.neg()))
                a = args[0].r
                self._add(b_or(b_not(rel('le', a)), b_rel('le', x.sub(ONE))))
                self._add(b_or(rel('lt', a), b_rel('le', ONE.sub(x))))
                self._add(b_or(rel('eq', a), b_not(b_rel('eq', ONE.sub(x)))))
            if name in ('sin', 'cos'):
                self._add(b_rel('le', x.sub(ONE))); self._add(b_rel('le', x.neg().sub(ONE)))
            self._funcs()[(name, i)] = args
            self.model = None
        return SReal(Rat(Poly.var(i)))
    def _funcs(self):
        return self.path_funcs
    def floor(self, q):
        if q.r.is_const():
            return SReal(Rat(Poly.const(Fraction(math.floor(q.r.cval())))))
        # fork over integer values near the model (bounded)
        for k in self._floor_candidates(q):
            if bool((q >= k) & (q < k + 1)):
                return SReal(Rat(Poly.const(Fraction(k))))
        raise SymUnsupported('floor out of range')
    def _floor_candidates(self, q):
        yield from (0, 1, -1, 2, -2, 3, -3, 4, -4, 5, 6, 7, 8)
    def concretize(self, x):
        """fallback: pin a symbolic value to one model value (recorded as degraded coverage)"""
        self._need_model()
        self.path_degraded = True
        self.st.inc('concretized')
        m = self.model
        if m is None:
            r = self._solve(self.pc, want_model=True) if self.pc else ('sat', {}, True)
            m = {i: Fraction(0) for i in self.path_vars.values()}
            if r[0] == 'sat': m.update(r[1])
        try:
            v = x.r.num.evaluate(m) / x.r.denpoly().evaluate(m)
        except ZeroDivisionError:
            raise Infeasible()
        c = rel('eq', radd(x.r, rneg(Rat(Poly.const(v)))))
        if c is not True:
            r = self.check(c)
            if r[0] == 'sat': self._commit(c, r)
        if len(self.degraded) < 20:
            import traceback
            self.degraded.append(''.join(traceback.format_stack(limit=6)[:-2])[-600:])
        return v
    def full_model(self, extra=()):
        """model of the whole path condition plus extra constraints: dict name->value"""
        out = {}
        cs = list(self.pc) + [e for e in extra if e is not True]
        if any(e is False for e in extra): return None
        comps = []
        rest = cs
        while rest:
            c = rest[0]; vs = set(c.vars); comp = [c]; rest = rest[1:]
            ch = True
            while ch:
                ch = False; nr = []
                for d in rest:
                    if d.vars & vs: comp.append(d); vs |= d.vars; ch = True
                    else: nr.append(d)
                rest = nr
            r = self._solve(comp, want_model=True)
            if r[0] != 'sat': return None
            out.update(r[1])
        full = {}
        for n, i in self.path_vars.items():
            v = out.get(i)
            if v is None: v = False if self.kind[i] == 'bool' else self.default.get(n, Fraction(0)) if hasattr(self, 'default') else Fraction(0)
            full[n] = v
        return full
    def show(self, x):
        def pp(p):
            return ' + '.join('%s%s' % (c, ''.join('*%s^%d' % (self.names[v], e) for v, e in m)) for m, c in p.t.items()) or '0'
        s = pp(x.r.num)
        if x.r.den: s = '(%s)/(%s)' % (s, ')('.join('%s^%d' % (pp(f), e) for f, e in x.r.den))
        return s[:300]


def _poly_sqrt(r):
    """exact square root of a rational function that is a perfect square of a monomial/linear form, else None"""
    def ps(p):
        if p.is_const():
            c = p.cval()
            if c < 0: return None
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            return Poly.const(Fraction(a, b)) if a * a == c.numerator and b * b == c.denominator else None
        # leading-term method
        d = p.degree()
        if d % 2: return None
        m = max(p.t, key=lambda m: tuple((-v, e) for v, e in m)); c = p.t[m]
        if c < 0 or any(e % 2 for _, e in m): return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator: return None
        q = Poly({tuple((v, e // 2) for v, e in m): Fraction(a, b)})
        lead = tuple((v, e // 2) for v, e in m); lc = Fraction(a, b)
        from .poly import _mdiv, _lexkey
        for _ in range(60):
            rem = p.sub(q.mul(q))
            if rem.is_zero(): return q
            mm = max(rem.t, key=_lexkey)
            k = _mdiv(mm, lead)
            if k is None: return None
            if _lexkey(k) >= _lexkey(lead): return None
            q = q.add(Poly({k: rem.t[mm] / (2 * lc)}))
        return None
    n = ps(r.num)
    if n is None: return None
    den = []
    for f, e in r.den:
        if e % 2 == 0: den.append((f, e // 2))
        else:
            g = ps(f)
            if g is None: return None
            k, g = g.primitive()
            if k != 1: n = n.scale(1 / k)
            den.append((g, e))
    return Rat(n, tuple(den))
