"""Symbolic numbers.

`Sym` is a (complex valued) Laurent polynomial over *atoms* with floating point
complex coefficients.  Atoms are symbolic inputs (real, positive or complex),
results of uninterpreted functions, or roots/inverses of non-monomial
polynomials.  Exponents are rationals, so sqrt() of a monomial in positive
atoms stays a monomial.  Arithmetic on Sym is arithmetic over the reals: a
coefficient that cancels to less than CANCEL relative to its summands is
rounded to zero (documented float-as-real abstraction).
"""
from fractions import Fraction
import cmath
import re
import math
import numbers

CANCEL = 1e-12


class Unsupported(Exception):
    """The engine has no encoding for an operation of the code under test."""


class Atom:
    __slots__ = ('id', 'name', 'kind', 'lo', 'hi', 'defn', 'conj_id', 'key')
    # kind: 'real' | 'pos' | 'cplx' (primary) | 'conj' (conjugate of primary)

    def __repr__(self):
        return self.name


class AtomTable:
    def __init__(self):
        self.atoms = []
        self.bykey = {}

    def _new(self, name, kind, lo, hi, defn, key):
        a = Atom()
        a.id = len(self.atoms)
        a.name, a.kind, a.lo, a.hi, a.defn, a.key = name, kind, lo, hi, defn, key
        a.conj_id = a.id
        self.atoms.append(a)
        if key is not None:
            self.bykey[key] = a
        return a

    def get(self, key, name, kind, lo=None, hi=None, defn=None):
        a = self.bykey.get(key)
        if a is not None:
            if (a.lo, a.hi) != (lo, hi) and isinstance(key, tuple) and key[0] == 'in':
                raise RuntimeError('harness error: input %s declared with two different ranges' % name)
            return a
        if kind == 'cplx':
            a = self._new(name, 'cplx', lo, hi, defn, key)
            b = self._new('conj(%s)' % name, 'conj', lo, hi, None, None)
            a.conj_id, b.conj_id = b.id, a.id
            return a
        return self._new(name, kind, lo, hi, defn, key)


TABLE = AtomTable()


def reset_atoms():
    TABLE.atoms.clear()
    TABLE.bykey.clear()


FORMATTED = []      # symbolic numbers written out with a format specification


def formatted(text):
    """the symbolic number behind a piece of text, or None"""
    m = re.match(r'^\s*SYM(\d+)\s*$', text)
    return FORMATTED[int(m.group(1))] if m else None


def isconst(x):
    return isinstance(x, numbers.Number) and not isinstance(x, Sym)


def _isnan(c):
    return c != c


_ONE = ()


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    # merge of two short sorted tuples
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] < b[0]:
            out.append(a); i += 1
        elif b[0] < a[0]:
            out.append(b); j += 1
        else:
            e = a[1] + b[1]
            if e != 0:
                out.append((a[0], e))
            i += 1; j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


def _mpow(m, e):
    if e == 0:
        return ()
    return tuple((a, x * e) for a, x in m)


def _mconj(m):
    at = TABLE.atoms
    return tuple(sorted((at[a].conj_id, e) for a, e in m))


def _addto(d, m, c):
    o = d.get(m)
    if o is None:
        if c != 0:
            d[m] = c
    else:
        s = o + c
        if abs(s) <= CANCEL * (abs(o) + abs(c)):
            del d[m]
        else:
            # clean tiny cancelled real or imaginary parts
            if s.imag != 0 and abs(s.imag) <= CANCEL * (abs(o.imag) + abs(c.imag)):
                s = complex(s.real, 0.0)
            if s.real != 0 and abs(s.real) <= CANCEL * (abs(o.real) + abs(c.real)):
                s = complex(0.0, s.imag)
            d[m] = s


def _ispos_mono(m):
    at = TABLE.atoms
    for a, e in m:
        if at[a].kind == 'pos':
            continue
        if at[a].kind == 'real' and e == int(e) and int(e) % 2 == 0:
            continue
        return False
    return True


class Sym:
    __slots__ = ('t', '_h')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, terms):
        self.t = terms
        self._h = None

    # ---------------------------------------------------------- helpers
    @staticmethod
    def const(c):
        c = complex(c)
        return Sym({(): c} if c != 0 else {})

    @staticmethod
    def atom(a):
        return Sym({((a.id, 1),): 1 + 0j})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), 0j)

    def key(self):
        """canonical key (coefficients rounded to 11 significant digits)"""
        items = []
        for m, c in self.t.items():
            items.append((m, _r11(c.real), _r11(c.imag)))
        items.sort(key=lambda x: (str(x[0])))
        return tuple(items)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    # ---------------------------------------------------------- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return o._bin(self, lambda a, b: b + a)
        if not o.t:
            return self
        if not self.t:
            return o
        if len(self.t) < len(o.t):
            a, b = o, self
        else:
            a, b = self, o
        d = dict(a.t)
        for m, c in b.t.items():
            _addto(d, m, c)
        return Sym(d)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return o._bin(self, lambda a, b: b - a)
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            _addto(d, m, -c)
        return Sym(d)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return o._bin(self, lambda a, b: b * a)
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(b) == 1:
            (m2, c2), = b.items()
            if m2 == ():
                if c2 == 1:
                    return self
                return Sym({m: c * c2 for m, c in a.items()})
            return Sym({_mmul(m, m2): c * c2 for m, c in a.items()})
        if len(a) == 1:
            return o * self
        d = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                _addto(d, _mmul(m1, m2), c1 * c2)
        return Sym(d)

    __rmul__ = __mul__

    def inv(self):
        if not self.t:
            raise ZeroDivisionError('division by zero')
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Sym({_mpow(m, -1): 1 / c})
        return _composite(self, Fraction(-1))

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return o._bin(self, lambda a, b: b / a)
        if not o.t:
            raise ZeroDivisionError('complex division by zero')
        if o.is_const():
            k = o.constval()
            if k.imag == 0:
                k = k.real
            return Sym({m: c / k for m, c in self.t.items()})
        return self * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return o._bin(self, lambda a, b: a / b)
        return o.__truediv__(self)

    def __pow__(self, e):
        if isinstance(e, Sym):
            if not e.is_const():
                raise Unsupported('symbolic exponent')
            e = e.constval().real
        e = Fraction(e).limit_denominator(64)
        if e.denominator == 1:
            n = int(e)
            if n == 0:
                return Sym.const(1)
            if n < 0:
                return (self ** (-n)).inv() if len(self.t) != 1 else self.inv() ** (-n)
            r = None
            b = self
            while n:
                if n & 1:
                    r = b if r is None else r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if e.denominator == 2:
            return self.sqrt() ** int(e * 2)
        raise Unsupported('power %s' % e)

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def sqrt(self):
        if self.is_const():
            c = self.constval()
            if c.imag == 0 and c.real >= 0:
                return Sym.const(math.sqrt(c.real))
            return Sym.const(cmath.sqrt(c))
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if _ispos_mono(m) and c.imag == 0 and c.real > 0 and all(
                    TABLE.atoms[a].kind == 'pos' for a, e in m):
                return Sym({_mpow(m, Fraction(1, 2)): complex(math.sqrt(c.real))})
            r = _sqrt_square(m)
            if r is not None and c.imag == 0 and c.real > 0:
                return r * math.sqrt(c.real)
        return _composite(self, Fraction(1, 2))

    def __abs__(self):
        if self.is_const():
            return Sym.const(abs(self.constval()))
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if _ispos_mono(m):
                return Sym({m: complex(abs(c))})
            if (len(m) > 1 or m[0][1] != 1 or c != 1 or TABLE.atoms[m[0][0]].kind == 'conj') and all(
                    e == int(e) for a, e in m if TABLE.atoms[a].kind != 'pos'):
                r = Sym.const(abs(c))
                for a, e in m:
                    at = TABLE.atoms[a]
                    if at.kind == 'pos':
                        r = r * Sym({((a, e),): 1 + 0j})
                    else:
                        r = r * abs(Sym.atom(at if at.kind != 'conj' else TABLE.atoms[at.conj_id])) ** int(e)
                return r
        return uf('abs', (self,), kind='pos')

    def conjugate(self):
        return Sym({_mconj(m): c.conjugate() for m, c in self.t.items()})

    def conj(self):
        return self.conjugate()

    @property
    def real(self):
        if self.isreal():
            return self
        return (self + self.conjugate()) * 0.5

    @property
    def imag(self):
        if self.isreal():
            return ZERO
        return (self - self.conjugate()) * (-0.5j)

    def isreal(self):
        at = TABLE.atoms
        for m, c in self.t.items():
            if c.imag != 0:
                return self._isreal_slow()
            for a, e in m:
                if at[a].kind in ('cplx', 'conj'):
                    return self._isreal_slow()
        return True

    def _isreal_slow(self):
        return not (self - self.conjugate()).t

    def angle(self):
        if self.is_const():
            return Sym.const(cmath.phase(self.constval()))
        if len(self.t) == 1:        # positive factors do not change the phase
            (m, c), = self.t.items()
            if c.imag == 0 and c.real > 0:
                m2 = tuple((a, e) for a, e in m if TABLE.atoms[a].kind != 'pos')
                if m2 != m or c != 1:
                    s = Sym({m2: type(c)(1) if not isinstance(c, complex) else complex(1)})
                    return s.angle() if m2 else Sym.const(0.0)
        return uf('angle', (self,), kind='real')

    # ---------------------------------------------------------- comparisons
    def __eq__(self, o):
        o = lift(o)
        if o is NotImplemented or not isinstance(o, Sym):
            return o if o is NotImplemented else o._bin(self, lambda a, b: b == a)
        return mkcmp('eq', self, o)

    def __ne__(self, o):
        o = lift(o)
        if o is NotImplemented or not isinstance(o, Sym):
            return o if o is NotImplemented else o._bin(self, lambda a, b: b != a)
        return mkcmp('ne', self, o)

    def _ord(self, o, op):
        o = lift(o)
        if o is NotImplemented or not isinstance(o, Sym):
            return o
        for x in (self, o):
            if not x.isreal():
                raise TypeError("'%s' not supported between instances of 'complex'" % op)
        return mkcmp(op, self, o)

    def __lt__(self, o):
        return self._ord(o, 'lt')

    def __le__(self, o):
        return self._ord(o, 'le')

    def __gt__(self, o):
        o2 = lift(o)
        if not isinstance(o2, Sym):
            return NotImplemented
        return o2._ord(self, 'lt')

    def __ge__(self, o):
        o2 = lift(o)
        if not isinstance(o2, Sym):
            return NotImplemented
        return o2._ord(self, 'le')

    def __bool__(self):
        return bool(mkcmp('ne', self, ZERO))

    # ---------------------------------------------------------- conversions
    def __float__(self):
        if self.is_const():
            c = self.constval()
            if c.imag == 0:
                return c.real
        raise Unsupported('float() of a symbolic number outside patched code')

    def __complex__(self):
        if self.is_const():
            return self.constval()
        raise Unsupported('complex() of a symbolic number outside patched code')

    def __int__(self):
        if self.is_const():
            return int(self.constval().real)
        raise Unsupported('int() of a symbolic number')

    def __round__(self, nd=None):
        if self.is_const() and self.isreal():
            return round(self.constval().real, nd)
        return uf('fn.round', (self, nd or 0), kind='real')

    def __format__(self, spec):
        if spec[-1:] not in ('e', 'E', 'f', 'F', 'g', 'G'):
            return repr(self)
        if self.is_const():
            c = self.constval()
            return format(c.real if self.isreal() else c, spec)
        FORMATTED.append((self, spec))
        return 'SYM%d' % (len(FORMATTED) - 1) + ('' if self.isreal() else 'j')

    def __repr__(self):
        return show(self)

    __str__ = __repr__

    def copy(self):
        return self

    def item(self):
        return self

    @property
    def T(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    # mimic float predicates
    def is_integer(self):
        raise Unsupported('is_integer')


ZERO = Sym({})


def _r11(x):
    if x == 0:
        return 0.0
    return float('%.10e' % x)


def lift(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, SymBool):
        return Sym.const(1 if bool(o) else 0)
    if isinstance(o, (int, float, complex, Fraction)):
        c = complex(o)
        if c != c or abs(c) == math.inf:
            return Poison(c)
        return Sym.const(c)
    import numpy as np
    if isinstance(o, (np.generic,)):
        return lift(o.item())
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return lift(o.item())
        return _ArrAdapter(o)
    if isinstance(o, Poison):
        return o
    if hasattr(o, '__symarray__'):
        return _ArrAdapter(o.__symarray__())
    return NotImplemented


class _ArrAdapter:
    def __init__(self, arr):
        self.arr = arr

    def _bin(self, s, fn):
        # fn(array_element, s)
        from . import arrays
        return arrays.elementwise(lambda x: fn(x, s), self.arr)


class Poison:
    """NaN / infinity swallowing everything (with a complex payload)."""
    __array_ufunc__ = None
    __array_priority__ = 1001

    def __init__(self, c=float('nan')):
        self.c = complex(c)

    def _p(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _p
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __pos__ = __abs__ = _p
    conj = conjugate = sqrt = angle = _p

    def _bin(self, s, fn):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    def __lt__(self, o):
        return False
    __le__ = __gt__ = __ge__ = __lt__

    def __bool__(self):
        return True

    def __hash__(self):
        return 7

    def __float__(self):
        return float('nan')

    def __complex__(self):
        return complex('nan')

    def __repr__(self):
        return 'nan'


# -------------------------------------------------------------- composite atoms

def _sqrt_square(m):
    """square root of a monomial that is a product of squares of moduli, as moduli; None otherwise"""
    r = Sym.const(1)
    left = dict(m)
    while left:
        a, e = left.popitem()
        at = TABLE.atoms[a]
        if at.kind == 'pos':
            r = r * Sym({((a, e / 2 if isinstance(e, Fraction) else Fraction(e, 2)),): 1 + 0j})
        elif e != int(e):
            return None
        elif at.kind == 'real':
            if int(e) % 2:
                return None
            r = r * abs(Sym.atom(at)) ** (int(e) // 2)
        else:
            if left.pop(at.conj_id, None) != e:
                return None
            r = r * abs(Sym.atom(at)) ** int(e)
    return r


def _content(p, positive):
    """common monomial factor of all terms (of positive atoms only if asked)"""
    it = iter(p.t)
    com = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(com):
            if a not in d:
                com[a] = min(com[a], 0)
        for a, e in d.items():
            com[a] = min(com.get(a, 0), e)
    at = TABLE.atoms
    return tuple(sorted((a, e) for a, e in com.items() if e != 0 and (not positive or at[a].kind == 'pos')))


def _composite(p, e):
    """p**e for a non-monomial polynomial p.  Normalised by the coefficient of
    the leading monomial and any common monomial factor that is positive."""
    com = _content(p, e.denominator != 1) if len(p.t) > 1 else ()
    if com:
        q = Sym({_mmul(m, _mpow(com, -1)): c for m, c in p.t.items()})
        return Sym({_mpow(com, e if e.denominator != 1 else int(e)): 1 + 0j}) * _composite(q, e)
    lead = min(p.t, key=lambda m: str(m))
    c = p.t[lead]
    if e.denominator != 1:
        # only pull out positive real factors
        k = abs(c)
    else:
        k = c
    q = Sym({m: x / k for m, x in p.t.items()})
    key = ('comp', q.key())
    real = q.isreal()
    kind = 'pos' if (real and e.denominator != 1) else ('real' if real else 'cplx')
    key = key + (kind,)
    a = TABLE.get(key, '<%s>' % show(q, 60), kind, defn=('poly', q))
    if isinstance(k, complex) and k.imag == 0:
        k = k.real
    if e == -1:
        f = 1 / k
    else:
        f = math.sqrt(k)
    return Sym({((a.id, e if e.denominator != 1 else int(e)),): complex(f)})


def uf(name, args, kind='real', lo=None, hi=None):
    """uninterpreted function application"""
    k = []
    for a in args:
        if isinstance(a, Sym):
            k.append(a.key())
        else:
            k.append(('c', a))
    key = ('uf', name, tuple(k))
    a = TABLE.get(key, '%s(%s)' % (name, ', '.join(
        show(x, 40) if isinstance(x, Sym) else repr(x) for x in args)), kind,
        lo=lo, hi=hi, defn=('uf', name, tuple(args)))
    return Sym.atom(a)


# -------------------------------------------------------------- booleans

class SymBool:
    """comparison / boolean combination, decided by the current explorer"""
    __slots__ = ('op', 'a', 'b')
    __array_ufunc__ = None

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b

    def __bool__(self):
        from . import explore
        return explore.decide(self)

    def key(self):
        if self.op in ('and', 'or', 'not'):
            return (self.op, self.a.key() if isinstance(self.a, SymBool) else self.a,
                    self.b.key() if isinstance(self.b, SymBool) else self.b)
        if self.op == 'var':
            return ('var', self.a)
        if self.op == 'z3':
            return ('z3', self.a.sexpr())
        return (self.op, self.a.key(), self.b.key())

    def __and__(self, o):
        return sand(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return '(%s %r %r)' % (self.op, self.a, self.b)


def boolvar(name):
    return SymBool('var', name)


def snot(x):
    if isinstance(x, SymBool):
        if x.op == 'not':
            return x.a
        return SymBool('not', x)
    return not x


def sand(x, y):
    if not isinstance(x, SymBool):
        return y if x else False
    if not isinstance(y, SymBool):
        return x if y else False
    return SymBool('and', x, y)


def sor(x, y):
    if not isinstance(x, SymBool):
        return True if x else y
    if not isinstance(y, SymBool):
        return True if y else x
    return SymBool('or', x, y)


def mkcmp(op, a, b):
    d = a - b
    if isinstance(d, Poison):
        return op == 'ne'
    if d.is_const():
        c = d.constval()
        if op == 'eq':
            return c == 0
        if op == 'ne':
            return c != 0
        if op == 'lt':
            return c.real < 0
        if op == 'le':
            return c.real <= 0
    return SymBool(op, d, ZERO)


# -------------------------------------------------------------- printing

def show(p, limit=400):
    if isinstance(p, Poison):
        return 'nan'
    if not isinstance(p, Sym):
        return repr(p)
    if not p.t:
        return '0'
    out = []
    n = 0
    for m, c in p.t.items():
        cs = ('%.6g' % c.real) if c.imag == 0 else ('(%.6g%+.6gj)' % (c.real, c.imag))
        fs = []
        for a, e in m:
            nm = TABLE.atoms[a].name
            fs.append(nm if e == 1 else '%s^%s' % (nm, e))
        s = '*'.join([cs] + fs) if (cs != '1' or not fs) else '*'.join(fs)
        out.append(s)
        n += len(s)
        if n > limit:
            out.append('...')
            break
    return ' + '.join(out)


# -------------------------------------------------------------- evaluation

def evaluate(p, val):
    """numerically evaluate Sym with val: Atom -> complex/float"""
    if isinstance(p, Poison):
        return p.c
    if not isinstance(p, Sym):
        return complex(p)
    s = 0j
    for m, c in p.t.items():
        x = c
        for a, e in m:
            v = val(TABLE.atoms[a])
            x = x * (v ** (int(e) if e == int(e) else float(e)))
        s += x
    return s
