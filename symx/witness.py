"""Concrete points that satisfy a path condition: they show without the solver that a branch can be taken, and are the
first candidates for a counterexample.  They never decide an obligation."""
import cmath
import math
import random
from . import core
from .core import Sym, SymBool, Poison

MATH = {'exp': cmath.exp, 'log': cmath.log, 'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan, 'asin': cmath.asin,
        'acos': cmath.acos, 'atan': cmath.atan, 'sinh': cmath.sinh, 'cosh': cmath.cosh, 'tanh': cmath.tanh}


def inside(a, v):
    """is a value within the range of an input?"""
    for x in ([v.real, v.imag] if a.kind == 'cplx' else [complex(v).real]):
        if a.lo is not None and x < a.lo or a.hi is not None and x > a.hi or a.kind == 'pos' and a.lo is None and x <= 0:
            return False
    return True


class Witness:
    def __init__(self, seed, over=None):
        self.seed = seed
        self.over = over or {}
        self.vals = {}
        self.parent = self.moved = None

    def scaled(self, ids, how):
        o = {}
        for i in ids:
            a = core.TABLE.atoms[i]
            v = self.value(a)
            if how == 'hi':
                if a.hi is None:
                    v = v * 1e6
                else:
                    v = a.hi - 1e-3 * (a.hi - (a.lo if a.lo is not None else a.hi - 1))
                    if a.kind == 'cplx':
                        v = complex(v, v)
            elif inside(a, v * how):
                v = v * how
            o[i] = v
        return self.put(o)

    def put(self, o):
        """the same point with other values of some inputs"""
        w = Witness(self.seed, {**self.over, **o})
        w.parent, w.moved = self, frozenset(o)
        return w

    def value(self, a):
        if a.kind == 'conj':
            return self.value(core.TABLE.atoms[a.conj_id]).conjugate()
        v = self.vals.get(a.id)
        if v is None:
            v = self.vals[a.id] = self._value(a)
        return v

    def _value(self, a):
        if a.id in self.over:
            return self.over[a.id]
        if self.parent is not None and not deps(a) & self.moved:
            return self.parent.value(a)
        d = a.defn
        if d is not None and d[0] == 'poly':
            return core.evaluate(d[1], self.value)
        if d is not None and d[0] == 'uf' and d[1] == 'abs':
            return abs(core.evaluate(d[2][0], self.value))
        if d is not None and d[0] == 'uf' and d[1] in MATH:
            r = MATH[d[1]](core.evaluate(d[2][0], self.value))
            return r if a.kind == 'cplx' else r.real
        rnd = random.Random('%d/%d/%s' % (self.seed, a.id, a.name))
        lo, hi = a.lo, a.hi
        if lo is None:
            lo = 0.05 if a.kind == 'pos' else -1.5
        if hi is None:
            hi = lo + 3
        if a.kind == 'cplx':
            return complex(rnd.uniform(lo, hi), rnd.uniform(lo, hi))
        return rnd.uniform(lo, hi)

    def holds(self, c):
        """-> True, False or None (not decided at this point)"""
        if not isinstance(c, SymBool):
            return bool(c)
        if c.op in ('var', 'z3'):
            return None
        if c.op == 'not':
            r = self.holds(c.a)
            return None if r is None else not r
        if c.op in ('and', 'or'):
            stop = c.op == 'or'
            r = self.holds(c.a)
            if r is stop:
                return r
            q = self.holds(c.b)
            if q is stop:
                return q
            return None if r is None or q is None else not stop
        try:
            s, size = self.sum(c.a)
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            return None
        if s != s:
            return None
        if s != 0 and abs(s) <= 1e-11 * size:
            return None
        if c.op == 'eq':
            return s == 0
        if c.op == 'ne':
            return s != 0
        if s == 0 and size != 0:
            return None
        return s.real < 0 if c.op == 'lt' else s.real <= 0

    def sum(self, p):
        s, size = 0j, 0.0
        for m, c in p.t.items():
            x = c
            for a, e in m:
                v = self.value(core.TABLE.atoms[a])
                if e == int(e):
                    x = x * v ** int(e)
                else:
                    v = complex(v)
                    if v.imag or v.real < 0:
                        raise ValueError
                    x = x * v.real ** float(e)
            s += x
            size += abs(x)
        return s, size

    def inputs(self, env):
        out = {}
        for name, (k, a) in env.inputs.items():
            if k == 'num':
                v = self.value(a)
                out[name] = complex(v) if a.kind == 'cplx' else float(complex(v).real)
        return out


_DEPS = {}


def deps(atom):
    """inputs an atom depends on"""
    if atom.kind == 'conj':
        atom = core.TABLE.atoms[atom.conj_id]
    d = atom.defn
    if d is None:
        return frozenset([atom.id])
    k = (id(core.TABLE), atom.id, atom.name)
    r = _DEPS.get(k)
    if r is None:
        r = frozenset()
        for p in ([d[1]] if d[0] == 'poly' else d[2]):
            if isinstance(p, Sym):
                for m in p.t:
                    for a, e in m:
                        r |= deps(core.TABLE.atoms[a])
        _DEPS[k] = r
    return r


def groups(c, out):
    """sets of inputs by which the terms of a condition can be moved independently"""
    if isinstance(c, SymBool):
        if c.op in ('and', 'or', 'not'):
            groups(c.a, out)
            if c.op != 'not':
                groups(c.b, out)
        elif c.op not in ('var', 'z3'):
            for m in c.a.t:
                for a, e in m:
                    out.setdefault(deps(core.TABLE.atoms[a]), None)
    return out


def pure_var(c):
    if not isinstance(c, SymBool):
        return True
    if c.op == 'var':
        return True
    if c.op in ('and', 'or'):
        return pure_var(c.a) and pure_var(c.b)
    return c.op == 'not' and pure_var(c.a)


def inputs_of(c):
    return frozenset().union(*groups(c, {}))


def compatible(d, cond, want, ids, pc, pcdeps):
    return d.holds(cond) is want and all(d.holds(c) is v for (c, v, z), dep in zip(pc, pcdeps) if dep & ids)


def root(w, cond):
    """points where an equation linear in some input holds"""
    if cond.op != 'eq':
        return
    try:
        s, size = w.sum(cond.a)
    except (ZeroDivisionError, OverflowError, ValueError, TypeError):
        return
    for m, c in list(cond.a.t.items())[:6]:
        if len(m) == 1 and m[0][1] == 1:
            a = core.TABLE.atoms[m[0][0]]
            if a.defn is None and a.kind != 'conj':
                rest = s - c * w.value(a)
                v = -rest / c
                if a.kind != 'cplx':
                    if v.imag:
                        continue
                    v = v.real
                if not inside(a, v):
                    continue
                yield a.id, v


def flip(w, cond, want, pc, pcdeps):
    """a witness near w on the other side of a condition, compatible with the decisions before"""
    g = list(groups(cond, {}))
    every = frozenset().union(*g) if g else frozenset()
    eq = cond.op in ('eq', 'ne') or cond.op in ('and', 'or', 'not')
    if want:
        for i, v in root(w, cond):
            d = w.put({i: v})
            if compatible(d, cond, want, frozenset([i]), pc, pcdeps):
                return d
    for ids in [every] + (g[:6] + g[-6:] if len(g) > 1 else []):
        for how in ((0, 1e-16) if eq else (1e-16, 'hi', 0)):
            d = w.scaled(ids, how)
            if compatible(d, cond, want, ids, pc, pcdeps):
                return d
    return None
