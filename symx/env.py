"""The two interpreters of a harness: SymEnv (solver) and ConcEnv (replay on unpatched code)."""
import math, time
from fractions import Fraction
import numpy as np
from . import core
from .core import (SReal, SBool, S, B, Infeasible, b_and, b_or, b_not, b_rel, b_var, rel, radd, rneg, mkbool, tob, frac)
from .poly import Poly, Rat

NOISE = Fraction(1, 10**9)

class Refuted(Exception):
    """concrete obligation failed (replay)"""

class AssumeFailed(Exception):
    pass

def _flat_pairs(a, b):
    A = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    Bb = np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) else b
    if A.shape != Bb.shape:
        try: A, Bb = np.broadcast_arrays(A, Bb)
        except ValueError: return None
    return list(zip(A.astype(object).flat, Bb.astype(object).flat))

class Flag(object):
    """a label whose presence in a flag set is a symbolic boolean: hashes like the plain label, and `label in flags`
    asks the solver"""
    def __init__(self, label, bit): self.label = label; self.bit = bit
    def __hash__(self): return hash(self.label)
    def __eq__(self, o):
        if isinstance(o, Flag): return self is o
        if o == self.label: return bool(self.bit)
        return False
    def __repr__(self): return 'Flag(%r)' % (self.label,)

class SymEnv(object):
    symbolic = True
    def __init__(self, ctx): 
        self.ctx = ctx; self.queue = []; self.labels = {}; self.ident = []
        self.bounds = {}
    # ---- inputs
    def real(self, name, lo=None, hi=None, default=None):
        i = self.ctx.newvar(name)
        x = SReal(Rat(Poly.var(i)))
        if lo is not None: self.ctx.assume(x >= lo)
        if hi is not None: self.ctx.assume(x <= hi)
        return x
    def pos(self, name, lo=None, hi=None):
        x = SReal(Rat(Poly.var(self.ctx.newvar(name))))
        self.ctx.assume(x > 0)
        if lo is not None: self.ctx.assume(x >= lo)
        if hi is not None: self.ctx.assume(x <= hi)
        return x
    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]
    def bit(self, name):
        return SBool(b_var(self.ctx.newvar(name, 'bool')))
    def flag(self, label, name):
        """value to put in a flag set: present iff bit `name`"""
        return Flag(label, self.bit(name))
    def mark(self, node, label, name, **kw):
        """mark node with label iff bit `name` (lazily); returns the bit"""
        b = self.bit(name)
        if not node.is_marked(label): node.mark(Flag(label, b), **kw)
        return b
    def markall(self, nodes, label, bit):
        """mark each node with label iff the given (symbolic) bit"""
        for n in nodes: n.mark(Flag(label, bit) if isinstance(bit, SBool) else label) if bit is not False else None
    def choice(self, name, options):
        options = list(options)
        for k, o in enumerate(options[:-1]):
            if bool(self.bit('%s=%s' % (name, k))): return o
        return options[-1]
    def assume(self, cond):
        self.ctx.assume(cond if isinstance(cond, (SBool, bool)) else tob(cond))
    # ---- obligations
    def prove(self, label, cond, info=None):
        b = tob(cond) if not isinstance(cond, (B,)) else cond
        self.queue.append((label, b, info))
    def eq(self, label, a, b, info=None, noise=NOISE):
        ps = _flat_pairs(a, b)
        if ps is None:
            self.prove(label, False, 'shape %s vs %s' % (np.shape(a), np.shape(b))); return
        for x, y in ps:
            self.queue.append((label, self._eqb(x, y, noise), info))
    def _eqb(self, x, y, noise):
        if isinstance(x, SBool) or isinstance(y, SBool):
            return tob(mkbool(tob(x)) == mkbool(tob(y))) if not isinstance(mkbool(tob(x)), bool) else (tob(y) if tob(x) is True else b_not(tob(y)))
        if x is None or y is None: return x is y
        try:
            rx, ry = S(x).r, S(y).r
        except (TypeError, AttributeError, core.SymUnsupported):
            return bool(x == y)
        d = radd(rx, rneg(ry))
        if not d.num.is_zero() and self.ctx.sqrt_of:
            d = self.ctx.reduce(d)
            if d.num.is_zero(): return True
        if d.num.is_zero():
            self.ident.append((rx, ry))
            return True
        # coefficients at rounding-noise level relative to the operands are float error of constants
        sc = max([abs(c) for c in rx.num.t.values()] + [abs(c) for c in ry.num.t.values()] + [Fraction(0)])
        if d.den:
            m = max(abs(c) for c in d.denpoly().t.values()); sc = sc * max(m, 1)
        if noise and sc:
            t = {k: c for k, c in d.num.t.items() if abs(c) > noise * max(sc, 1)}
            if len(t) != len(d.num.t):
                self.ctx.st.inc('noise_terms', len(d.num.t) - len(t))
                d = Rat(Poly(t), d.den)
        return b_rel('eq', d.num) if d.num.t else True
    def close(self, label, a, b, tol, info=None):
        ps = _flat_pairs(a, b)
        if ps is None:
            self.prove(label, False, 'shape %s vs %s' % (np.shape(a), np.shape(b))); return
        for x, y in ps:
            d = S(x) - S(y)
            self.queue.append((label, b_and(tob(d <= tol), tob(d >= -tol)), info))
    def le(self, label, a, b, info=None, tol=0):
        self.prove(label, S(a) <= S(b) + S(tol) if tol else S(a) <= b, info)
    def fail(self, label, info=None): self.prove(label, False, info)
    def is_true(self, cond):
        """decide (fork on) a condition"""
        return bool(cond)
    def note_path(self): self.ctx.st.inc('reached')
    def num(self, x): return S(x)

def b_margin(b, m):
    """a strengthening of b keeping clear of its boundary by m (on primitive polynomials)"""
    if b is True or b is False: return b
    if b.op in ('lt', 'le'):
        return b_rel('le', b.args[0].add(Poly.const(Fraction(m))))
    if b.op == 'not':
        a = b.args[0]
        if a.op == 'eq':
            p = a.args[0]
            return b_or(b_rel('le', p.add(Poly.const(Fraction(m)))), b_rel('le', p.neg().add(Poly.const(Fraction(m)))))
        if a.op == 'and': return b_or(*[b_margin(b_not(x), m) for x in a.args])
        if a.op == 'or': return b_and(*[b_margin(b_not(x), m) for x in a.args])
        return b
    if b.op == 'and': return b_and(*[b_margin(x, m) for x in b.args])
    if b.op == 'or': return b_or(*[b_margin(x, m) for x in b.args])
    return b


class ConcEnv(object):
    symbolic = False
    TOL = 1e-6
    def __init__(self, model):
        self.model = model; self.failed = []; self.checked = 0
    def _get(self, name, d): 
        v = self.model.get(name, d)
        return v
    def real(self, name, lo=None, hi=None, default=None):
        v = float(Fraction(self._get(name, 0)))
        if lo is not None and v < lo: v = float(lo)
        if hi is not None and v > hi: v = float(hi)
        return v
    def pos(self, name, lo=None, hi=None):
        v = float(Fraction(self._get(name, 1)))
        if v <= 0: v = 1.0
        if lo is not None and v < lo: v = float(lo)
        if hi is not None and v > hi: v = float(hi)
        return v
    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]
    def bit(self, name): return bool(self._get(name, False))
    def flag(self, label, name):
        return label if self.bit(name) else ('absent', label)
    def mark(self, node, label, name, **kw):
        b = self.bit(name)
        if b: node.mark(label, **kw)
        return b
    def markall(self, nodes, label, bit):
        for n in nodes:
            if bit: n.mark(label)
    def choice(self, name, options):
        options = list(options)
        for k, o in enumerate(options[:-1]):
            if self.bit('%s=%s' % (name, k)): return o
        return options[-1]
    def assume(self, cond):
        if not bool(cond): raise AssumeFailed()
    def prove(self, label, cond, info=None):
        self.checked += 1
        if not bool(cond): self.failed.append((label, str(info)[:300]))
    def eq(self, label, a, b, info=None, noise=None):
        self.close(label, a, b, None, info)
    def close(self, label, a, b, tol, info=None):
        ps = _flat_pairs(a, b)
        if ps is None:
            self.prove(label, False, 'shape %s vs %s' % (np.shape(a), np.shape(b))); return
        for x, y in ps:
            if x is None or y is None or isinstance(x, (bool, np.bool_, str)):
                self.prove(label, x is y or x == y, '%r vs %r' % (x, y)); continue
            x, y = float(x), float(y)
            t = self.TOL * max(1, abs(x), abs(y)) if tol is None else tol * 1.01 + 1e-9 * max(1, abs(x), abs(y))
            self.prove(label, abs(x - y) <= t, '%r vs %r %s' % (x, y, info if info is not None else ''))
    def le(self, label, a, b, info=None, tol=0):
        self.prove(label, float(a) <= float(b) + tol + 1e-9 * max(1, abs(float(a)), abs(float(b))), info)
    def fail(self, label, info=None): self.prove(label, False, info)
    def is_true(self, cond): return bool(cond)
    def note_path(self): pass
    def num(self, x): return x
