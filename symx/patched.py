"""Patched builtins and modules given to the code under test."""
import builtins
import cmath
import math
import types
import numpy as np
from .core import Sym, SymBool, Poison, Unsupported, ZERO, lift, uf
from .fp import FNum, FStr

_float, _complex, _int, _isinstance = float, complex, int, isinstance


class _FM(type):
    def __instancecheck__(cls, x):
        if _isinstance(x, Sym):
            return x.isreal()
        if _isinstance(x, FNum):
            return x.kind == 'float'
        return _isinstance(x, _float)

    def __subclasscheck__(cls, c):
        return issubclass(c, _float)

    def __call__(cls, x=0.0):
        if _isinstance(x, Sym):
            if not x.isreal():
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return x
        if _isinstance(x, (FNum, FStr)):
            return x.to_float()
        if _isinstance(x, Poison):
            return x
        if _isinstance(x, np.ndarray) and (hasattr(x, 'kind') or x.dtype == object):
            if x.ndim:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            return cls(x.item())
        return _float(x)

    def __eq__(cls, o):
        return o is cls or o is _float

    def __hash__(cls):
        return hash(_float)

    def __getattr__(cls, n):
        return getattr(_float, n)


class Float(metaclass=_FM):
    _symname = 'float'


class NpFloat(Float):
    pass


class _CM(_FM):
    def __instancecheck__(cls, x):
        if _isinstance(x, Sym):
            return True if not x.isreal() else False
        if _isinstance(x, FNum):
            return x.kind == 'complex'
        return _isinstance(x, _complex)

    def __call__(cls, a=0, b=None):
        if _isinstance(a, (Sym, Poison)) or _isinstance(b, (Sym, Poison)):
            return a if b is None else a + 1j * b
        if _isinstance(a, FNum) or _isinstance(b, FNum):
            return FNum.mk_complex(a, b)
        if b is None:
            return _complex(a)
        return _complex(a, b)

    def __getattr__(cls, n):
        return getattr(_complex, n)


class Complex(metaclass=_CM):
    _symname = 'complex'


class NpComplex(Complex):
    pass


class NpComplexFloating(NpComplex):
    _general = np.complexfloating


class _IM(type):
    def __instancecheck__(cls, x):
        if _isinstance(x, FNum):
            return x.kind == 'int'
        return _isinstance(x, _int)

    def __subclasscheck__(cls, c):
        return issubclass(c, _int)

    def __call__(cls, *a, **k):
        if a and _isinstance(a[0], (Sym, FNum, SymBool)):
            if hasattr(a[0], 'to_int'):
                return a[0].to_int()
            return _int(a[0])
        return _int(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)

    def __getattr__(cls, n):
        return getattr(_int, n)


class Int(metaclass=_IM):
    _symname = 'int'


_MAP = None


def p_isinstance(x, cls):
    if _isinstance(cls, tuple):
        return any(p_isinstance(x, c) for c in cls)
    if _isinstance(x, (Sym, FNum, FStr, SymBool, Poison)):
        import numbers
        n = getattr(cls, '_symname', None)
        if _isinstance(x, SymBool):
            return cls in (bool, builtins.object) or n == 'int'
        if _isinstance(x, FStr):
            return cls in (str, builtins.object)
        if _isinstance(x, FNum):
            k = x.kind
        elif _isinstance(x, Poison):
            k = 'complex'
        else:
            k = 'float' if x.isreal() else 'complex'
        if n is not None:
            return n == k
        if cls is _float:
            return k == 'float'
        if cls is _complex:
            return k == 'complex'
        if cls is _int:
            return k == 'int'
        if cls is builtins.object:
            return True
        if cls is numbers.Number or cls is numbers.Complex:
            return True
        if cls is numbers.Real:
            return k in ('float', 'int')
        if cls is numbers.Rational or cls is numbers.Integral:
            return k == 'int'
        if _isinstance(x, FNum) and x.np and _isinstance(cls, type) and issubclass(cls, np.generic):
            return issubclass({'float': np.float64, 'complex': np.complex128, 'int': np.int64}[k], cls)
        if cls in (np.number, np.generic, np.inexact, np.floating, np.complexfloating):
            return False
        if cls is SymType:
            return False
        return type.__instancecheck__(cls, x)
    if cls is SymType:
        return _isinstance(x, type)
    n = getattr(cls, '_symname', None)
    if n is not None:
        return _isinstance(x, {'float': _float, 'complex': _complex, 'int': _int}[n])
    return _isinstance(x, cls)


def p_type(*a):
    if len(a) == 1:
        x = a[0]
        if _isinstance(x, Sym):
            return Float if x.isreal() else Complex
        if _isinstance(x, FNum):
            return {'float': Float, 'complex': Complex, 'int': Int}[x.kind]
        if _isinstance(x, FStr):
            return str
        t = builtins.type(x)
        if t.__name__ == 'SymArray':
            return np.ndarray
        return {_float: Float, _complex: Complex, _int: Int}.get(t, t)
    return builtins.type(*a)


class _TM(type):
    """metaclass of the patched builtin `type`: one argument asks for the type of a (symbolic) value"""

    def __call__(cls, *a, **k):
        if cls is SymType:
            if len(a) == 1 and not k:
                return p_type(a[0])
            return type(*a, **k)
        return super().__call__(*a, **k)

    def __eq__(cls, o):
        return o is cls or cls is SymType and o is type

    def __hash__(cls):
        return hash(type) if cls is SymType else id(cls)


class SymType(type, metaclass=_TM):
    pass


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.pi = math.pi

    def sqrt(self, x):
        if _isinstance(x, np.ndarray):
            if x.ndim:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            x = x.item()
        if _isinstance(x, np.complexfloating):
            if x.imag != 0:
                raise TypeError("must be real number, not complex")
            x = _float(x.real)
        if _isinstance(x, Sym):
            if not x.isreal():
                raise TypeError("must be real number, not complex")
            return x.sqrt()
        if _isinstance(x, Poison):
            return x
        return math.sqrt(x)

    def isnan(self, x):
        if _isinstance(x, Sym):
            return False
        if _isinstance(x, Poison):
            return True
        if _isinstance(x, FNum):
            return x.isnan()
        return math.isnan(x)

    def isinf(self, x):
        if _isinstance(x, Sym):
            return False
        if _isinstance(x, FNum):
            return x.isinf()
        return math.isinf(x)

    def isfinite(self, x):
        if _isinstance(x, Sym):
            return True
        if _isinstance(x, Poison):
            return False
        if _isinstance(x, FNum):
            return x.isfinite()
        return math.isfinite(x)

    def pow(self, x, y):
        return x ** y

    def fabs(self, x):
        return abs(x)

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if _isinstance(a, Sym) or _isinstance(b, Sym):
            d = abs(a - b)
            return bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b)) or bool(d <= abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def __getattr__(self, n):
        f = getattr(math, n)
        if callable(f):
            def g(*a):
                if any(_isinstance(x, Sym) for x in a):
                    if any(_isinstance(x, Sym) and not x.isreal() for x in a):
                        raise TypeError('must be real number, not complex')
                    from .arrays import ufcall
                    return ufcall(n, *a) if not all(not _isinstance(x, Sym) or x.is_const() for x in a) else f(
                        *[x.constval().real if _isinstance(x, Sym) else x for x in a])
                if any(_isinstance(x, FNum) for x in a):
                    raise Unsupported('math.' + n)
                return f(*a)
            return g
        return f


class CMathProxy(types.ModuleType):
    def __init__(self):
        super().__init__('cmath')
        self.pi = math.pi

    def phase(self, z):
        return z.angle() if _isinstance(z, (Sym, Poison)) else cmath.phase(z)

    def sqrt(self, z):
        return z.sqrt() if _isinstance(z, (Sym, Poison)) else cmath.sqrt(z)

    def polar(self, z):
        return (abs(z), self.phase(z))

    def isnan(self, x):
        if _isinstance(x, Sym):
            return False
        if _isinstance(x, Poison):
            return True
        return cmath.isnan(x)

    def __getattr__(self, n):
        f = getattr(cmath, n)
        if callable(f):
            def g(*a):
                if any(_isinstance(x, Sym) for x in a):
                    from .arrays import ufcall
                    return ufcall(n, *a) if not all(not _isinstance(x, Sym) or x.is_const() for x in a) else f(
                        *[x.constval() if _isinstance(x, Sym) else x for x in a])
                return f(*a)
            return g
        return f
