"""Bit-exact IEEE-754 binary64 symbolic numbers (z3 FloatingPoint)."""
from . import _Z3PATH  # noqa
import numbers
import z3
from .core import SymBool, Unsupported

F64 = z3.Float64()
RNE = z3.RNE()


def fpv(x):
    return z3.FPVal(float(x), F64)


PZERO = z3.fpPlusZero(F64)


FINITE = {}      # terms assumed finite (by the harness)
_ZEROISH = {}    # terms that are +0 or -0
NZERO = z3.fpMinusZero(F64)


def mark_finite(t):
    FINITE[t.get_id()] = t


def _const(t):
    return z3.is_fp_value(t)


def _iszero(t):
    return t.get_id() in _ZEROISH or _const(t) and t.isZero()


def _zeroish(neg):
    t = z3.simplify(z3.If(neg, NZERO, PZERO))
    _ZEROISH[t.get_id()] = t
    return t


def _finite(t):
    return t.get_id() in FINITE or _iszero(t) or _const(t) and not (t.isNaN() or t.isInf())


def neg(t):
    if _iszero(t):
        return _zeroish(z3.Not(z3.fpIsNegative(t)))
    r = z3.simplify(z3.fpNeg(t))
    if _finite(t):
        mark_finite(r)
    return r


# IEEE identities applied at construction (x*1, x*0 for finite x, x+-0): exact
def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if _const(x) and not x.isNaN() and not x.isInf() and not x.isZero():
            v = z3.simplify(x == fpv(1))
            if z3.is_true(v):
                return y
            if z3.is_true(z3.simplify(x == fpv(-1))):
                return neg(y)
        if _iszero(x) and _finite(y):
            return _zeroish(z3.Xor(z3.fpIsNegative(x), z3.fpIsNegative(y)))
    return z3.fpMul(RNE, a, b)


def add(a, b):
    za, zb = _iszero(a), _iszero(b)
    if za and zb:
        return _zeroish(z3.And(z3.fpIsNegative(a), z3.fpIsNegative(b)))
    if za:
        a, b, zb = b, a, True
    if zb:
        r = z3.If(z3.fpIsZero(a), z3.If(z3.And(z3.fpIsNegative(a), z3.fpIsNegative(b)), NZERO, PZERO), a)
        if _finite(a):
            mark_finite(r)
        return r
    return z3.fpAdd(RNE, a, b)


def sub(a, b):
    return add(a, neg(b))


class FNum:
    """kind 'float' | 'complex' | 'int'; re/im are z3 Float64 terms.  An 'int'
    is an integer exactly representable in binary64 (its conversion is exact)."""
    __slots__ = ('kind', 're', 'im', 'name', 'np')
    __array_ufunc__ = None

    def __init__(self, kind, re, im=None, name=None, np=False):
        self.kind, self.re = kind, re
        self.im = im if im is not None else PZERO
        self.name = name
        self.np = np           # numpy scalar rather than a Python number

    @staticmethod
    def lift(x):
        if isinstance(x, FNum):
            return x
        if isinstance(x, bool):
            return FNum('int', fpv(x))
        if isinstance(x, int):
            return FNum('int', fpv(x))
        if isinstance(x, float):
            return FNum('float', fpv(x))
        if isinstance(x, complex):
            return FNum('complex', fpv(x.real), fpv(x.imag))
        return None

    @staticmethod
    def mk_complex(a, b=None):
        a = FNum.lift(a)
        if b is None:
            return FNum('complex', a.re, a.im)
        b = FNum.lift(b)
        if a.kind == 'complex' or b.kind == 'complex':
            return a + FNum('complex', PZERO, fpv(1)) * b
        return FNum('complex', a.re, b.re)

    def to_float(self):
        if self.kind == 'complex':
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return FNum('float', self.re)

    def _bin(self, o, f, c):
        o = FNum.lift(o)
        if o is None:
            return NotImplemented
        if self.kind == 'complex' or o.kind == 'complex':
            return FNum('complex', *c(self.re, self.im, o.re, o.im), np=self.np or o.np)
        if self.kind == 'int' and o.kind == 'int':
            raise Unsupported('symbolic int arithmetic')
        return FNum('float', f(self.re, o.re), np=self.np or o.np)

    def __add__(self, o):
        return self._bin(o, add,
                         lambda a, b, c, d: (add(a, c), add(b, d)))

    def __radd__(self, o):
        return FNum.lift(o) + self

    def __sub__(self, o):
        return self._bin(o, sub,
                         lambda a, b, c, d: (sub(a, c), sub(b, d)))

    def __rsub__(self, o):
        return FNum.lift(o) - self

    def __mul__(self, o):
        m = mul
        return self._bin(o, m, lambda a, b, c, d: (
            sub(m(a, c), m(b, d)), add(m(a, d), m(b, c))))

    def __rmul__(self, o):
        return FNum.lift(o) * self

    def __truediv__(self, o):
        o = FNum.lift(o)
        if o is None:
            return NotImplemented
        if self.kind == 'complex' or o.kind == 'complex':
            raise Unsupported('fp complex division')
        if bool(SymBool('z3', z3.fpIsZero(o.re))):
            raise ZeroDivisionError('float division by zero')
        return FNum('float', z3.fpDiv(RNE, self.re, o.re), np=self.np or o.np)

    def __rtruediv__(self, o):
        return FNum.lift(o) / self

    def __neg__(self):
        return FNum(self.kind, neg(self.re),
                    neg(self.im) if self.kind == 'complex' else None, np=self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.kind == 'complex':
            raise Unsupported('fp complex abs')
        return FNum(self.kind, z3.fpAbs(self.re), np=self.np)

    @property
    def real(self):
        return FNum('float' if self.kind == 'complex' else self.kind, self.re, np=self.np)

    @property
    def imag(self):
        if self.kind == 'complex':
            return FNum('float', self.im, np=self.np)
        return 0.0 if self.kind == 'float' else 0

    def conjugate(self):
        if self.kind == 'complex':
            return FNum('complex', self.re, neg(self.im), np=self.np)
        return self

    conj = conjugate

    def _eqz(self, o):
        return z3.And(z3.fpEQ(self.re, o.re), z3.fpEQ(self.im, o.im)) \
            if 'complex' in (self.kind, o.kind) else z3.fpEQ(self.re, o.re)

    def __eq__(self, o):
        o = FNum.lift(o)
        return False if o is None else SymBool('z3', self._eqz(o))

    def __ne__(self, o):
        o = FNum.lift(o)
        return True if o is None else SymBool('z3', z3.Not(self._eqz(o)))

    def _ord(self, o, f):
        o = FNum.lift(o)
        if o is None:
            return NotImplemented
        if 'complex' in (self.kind, o.kind):
            raise TypeError("ordering not supported between instances of 'complex'")
        return SymBool('z3', f(self.re, o.re))

    def __lt__(self, o):
        return self._ord(o, z3.fpLT)

    def __le__(self, o):
        return self._ord(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._ord(o, z3.fpGT)

    def __ge__(self, o):
        return self._ord(o, z3.fpGEQ)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash((self.kind, self.re.sexpr(), self.im.sexpr()))

    def isnan(self):
        return SymBool('z3', z3.Or(z3.fpIsNaN(self.re), z3.fpIsNaN(self.im)))

    def isinf(self):
        return SymBool('z3', z3.Or(z3.fpIsInf(self.re), z3.fpIsInf(self.im)))

    def isfinite(self):
        return SymBool('z3', z3.Not(z3.Or(z3.fpIsInf(self.re), z3.fpIsInf(self.im),
                                          z3.fpIsNaN(self.re), z3.fpIsNaN(self.im))))

    def __float__(self):
        raise Unsupported('float() of symbolic fp outside patched code')

    def __repr__(self):
        return repr(sentinel(self))

    def __str__(self):
        return str(sentinel(self))

    def __format__(self, spec):
        return format(sentinel(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        if not self.np:
            raise AttributeError('item')
        return FNum(self.kind, self.re, self.im)


# ---------------------------------------------------------------- text form
# A symbolic number that is written out as text is represented by a unique
# concrete number of the same type; reading exactly that number back yields the
# symbolic one (repr/parse of binary64 is exact in Python's json, yaml, str).
SENT = {}
_BACK = {}


def _sent(term, kind):
    key = (kind, term.sexpr())
    if key not in SENT:
        n = len(SENT) + 1
        v = 7000000000003 + 17 * n if kind == 'int' else 1.2345678912345671e-3 * (1 + n / 977.0)
        SENT[key] = v
        _BACK[v] = (kind, term)
    return SENT[key]


def sentinel(x):
    if x.kind == 'complex':
        v = complex(_sent(x.re, 'float'), _sent(x.im, 'float'))
    else:
        v = _sent(x.re, x.kind)
    if x.np:
        import numpy
        v = numpy.complex128(v) if x.kind == 'complex' else (
            numpy.int64(v) if x.kind == 'int' else numpy.float64(v))
    return v


def concretize(x):
    """replace symbolic leaves by their sentinels"""
    if isinstance(x, FNum):
        return sentinel(x)
    if isinstance(x, FStr):
        return repr(sentinel(x.num))
    if isinstance(x, dict):
        y = x.copy() if type(x) is not dict else {}
        y.clear()
        for k, v in x.items():
            y[k] = concretize(v)
        return y
    if type(x) in (list, tuple, set):
        return type(x)(concretize(v) for v in x)
    if isinstance(x, SymBool):
        return bool(x)
    return x


def _one(v):
    if type(v) in (float, int) and v in _BACK and _BACK[v][0] == type(v).__name__:
        return _BACK[v][1]
    return None


def symbolize(x):
    if type(x) in (float, int):
        t = _one(x)
        return x if t is None else FNum(type(x).__name__, t)
    if type(x) is complex:
        a, b = _one(x.real), _one(x.imag)
        if a is None and b is None:
            return x
        return FNum('complex', fpv(x.real) if a is None else a, fpv(x.imag) if b is None else b)
    if isinstance(x, dict):
        for k in list(x):
            x[k] = symbolize(x[k])
        return x
    if type(x) is list:
        x[:] = [symbolize(v) for v in x]
        return x
    if type(x) is tuple:
        return tuple(symbolize(v) for v in x)
    if type(x) is str and 8 < len(x) < 40:
        try:
            t = _one(float(x))
        except ValueError:
            return x
        return x if t is None else FStr(FNum('float', t))
    return x


class TextLib:
    """proxy of the json or yaml module"""

    def __init__(self, mod):
        self.__mod = mod
        self.__name__ = mod.__name__

    def __getattr__(self, n):
        v = getattr(self.__mod, n)
        if n in ('dump', 'dumps', 'safe_dump', 'dump_all', 'serialize'):
            def f(data, *a, **k):
                return v(concretize(data), *a, **k)
            return f
        if n in ('load', 'loads', 'safe_load', 'full_load', 'unsafe_load'):
            def g(data, *a, **k):
                if isinstance(data, FStr):
                    data = repr(sentinel(data.num))
                return symbolize(v(data, *a, **k))
            return g
        return v


def io_stubs():
    import json
    import yaml
    return {'json': TextLib(json), 'yaml': TextLib(yaml)}


class FStr:
    """a numeral string whose value is the given symbolic float"""

    def __init__(self, num):
        self.num = num

    def to_float(self):
        return FNum('float', self.num.re)

    def strip(self):
        return self

    def __repr__(self):
        return 'FStr(%r)' % self.num

    def __hash__(self):
        return hash(self.num)

    def __eq__(self, o):
        return o is self
