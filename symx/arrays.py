"""Object arrays of symbolic numbers that behave like complex numpy arrays, and
a proxy for the numpy module handed to the code under test."""
import builtins
import math
import types
import numpy as np
from .core import Sym, SymBool, Poison, ZERO, Unsupported, lift, snot, sand, sor

_c128 = np.complex128


def norm(x):
    """normalise a scalar for storage in a SymArray: Sym, Poison or complex128"""
    if isinstance(x, Sym):
        if x.is_const():
            return _c128(x.constval())
        return x
    if isinstance(x, (Poison, SymBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return _c128(float(x))
    if isinstance(x, (int, float, complex, np.number)):
        return _c128(x)
    return x


def _dropim(x):
    """value stored in an array of real type"""
    x = norm(x)
    if isinstance(x, Sym):
        return x if x.isreal() else norm(x.real)
    if isinstance(x, _c128):
        return _c128(x.real)
    return x


def realtyped(a):
    """mark an array as being of a real dtype: imaginary parts are lost on assignment"""
    a.kind = 'f'
    return a


def mk(shape, it=None, fill=0):
    a = np.empty(shape, dtype=object)
    if it is None:
        f = norm(fill)
        a.fill(f)
    else:
        fl = a.reshape(-1)
        for i, x in enumerate(it):
            fl[i] = norm(x)
        a = fl.reshape(shape)
    return a.view(SymArray)


def elementwise(fn, arr):
    out = [fn(x) for x in np.asarray(arr).reshape(-1)]
    if out and all(isinstance(x, (bool, np.bool_, SymBool)) for x in out):
        return np.array([bool(x) for x in out]).reshape(np.shape(arr))
    return mk(np.shape(arr), out)


def tosym(x):
    """convert list / ndarray / scalar of numbers or Syms to SymArray"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, PartView):
        return x.__symarray__()
    if isinstance(x, np.ndarray):
        return mk(x.shape, x.reshape(-1))
    if isinstance(x, Sym):
        return mk((), [x])
    if isinstance(x, (list, tuple)):
        parts = [tosym(y) if isinstance(y, (list, tuple, np.ndarray, PartView)) else y
                 for y in x]
        if any(isinstance(p, np.ndarray) for p in parts):
            parts = [p if isinstance(p, np.ndarray) else mk((), [p]) for p in parts]
            sh = parts[0].shape
            return mk((len(parts),) + sh, [e for p in parts for e in np.asarray(p).reshape(-1)])
        return mk((len(parts),), parts)
    return mk((), [x])


def _hassym(x):
    if isinstance(x, (Sym, Poison, SymArray, PartView)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_hassym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def unwrap(r):
    """0-d arrays -> scalars, object ndarray -> SymArray"""
    if isinstance(r, np.ndarray):
        if isinstance(r, SymArray) or r.dtype == object:
            if r.ndim == 0:
                return r.item()
            return r.view(SymArray)
    return r


class PartView:
    """write-through real/imaginary part of a SymArray"""
    __array_ufunc__ = None
    __array_priority__ = 1002

    def __init__(self, base, which):
        self.base, self.which = base, which

    def _part(self, x):
        x = norm(x)
        if isinstance(x, Poison):
            return x
        return norm(x.real if self.which == 're' else x.imag)

    def __symarray__(self):
        b = np.asarray(self.base)
        return realtyped(mk(b.shape, [self._part(x) for x in b.reshape(-1)]))

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.__symarray__())

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self.base, i)
        if isinstance(r, np.ndarray):
            return PartView(r.view(SymArray), self.which)
        return self._part(r)

    def __setitem__(self, i, v):
        old = np.ndarray.__getitem__(self.base, i)
        if isinstance(old, np.ndarray):
            sh = old.shape
            if isinstance(v, PartView):
                v = v.__symarray__()
            nv = np.broadcast_to(np.asarray(tosym(v)), sh).reshape(-1)
            res = mk(sh, [self._comb(o, n) for o, n in zip(old.reshape(-1), nv)])
            self.base[i] = res
        else:
            if isinstance(v, np.ndarray) and v.ndim > 0:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            self.base[i] = self._comb(old, v)

    def _comb(self, old, v):
        v = norm(v)
        if isinstance(v, Poison) or isinstance(old, Poison):
            return Poison()
        if isinstance(v, Sym):
            if not v.isreal():
                raise TypeError('complex value assigned to real part')
        else:
            v = v.real
        if self.which == 're':
            return v + 1j * old.imag
        return old.real + 1j * v

    def _bin(self, o, fn):
        return fn(self.__symarray__(), o.__symarray__() if isinstance(o, PartView) else o)

    def __getattr__(self, n):
        return getattr(self.__symarray__(), n)

    def __len__(self):
        return len(self.base)

    def __iter__(self):
        for i in range(len(self.base)):
            yield self[i]


def _mkop(name):
    def f(self, *a):
        a = [x.__symarray__() if isinstance(x, PartView) else x for x in a]
        return getattr(self.__symarray__(), name)(*a)
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow',
           'matmul', 'rmatmul', 'neg', 'pos', 'abs', 'eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(PartView, '__%s__' % _n, _mkop('__%s__' % _n))
PartView.__hash__ = None


class SymDtype:
    """dtype of a symbolic array"""

    def __init__(self, kind):
        self.kind = kind
        self._symname = {'c': 'complex', 'f': 'float'}[kind]
        self.name = {'c': 'complex128', 'f': 'float64'}[kind]
        self.char = {'c': 'D', 'f': 'd'}[kind]
        self.itemsize = {'c': 16, 'f': 8}[kind]
        self.str = {'c': '<c16', 'f': '<f8'}[kind]

    @property
    def type(self):
        from . import patched
        return patched.NpComplex if self.kind == 'c' else patched.NpFloat

    @property
    def real(self):
        return np.dtype(self.name)

    def __eq__(self, o):
        if isinstance(o, SymDtype):
            return o.kind == self.kind
        n = getattr(o, '_symname', None)
        if n is not None:
            return n == self._symname
        try:
            return self.real == np.dtype(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "dtype('%s')" % self.name


class SymArray(np.ndarray):
    __array_priority__ = 900

    @property
    def dtype(self):
        return SymDtype(self.kind)

    kind = 'c'          # 'f': real dtype; 'c': complex dtype or not known to be real

    def __array_finalize__(self, obj):
        if isinstance(obj, SymArray) and obj.kind != 'c':
            self.kind = obj.kind

    # ------------------------------------------------------------ parts
    @property
    def real(self):
        return PartView(self, 're')

    @real.setter
    def real(self, v):
        PartView(self, 're')[...] = v

    @property
    def imag(self):
        return PartView(self, 'im')

    @imag.setter
    def imag(self, v):
        PartView(self, 'im')[...] = v

    def conj(self):
        return mk(self.shape, [x.conjugate() for x in np.asarray(self).reshape(-1)])

    conjugate = conj

    def astype(self, dtype, *a, **k):
        return _typed(self.copy(), dtype)

    def fill(self, v):
        np.ndarray.fill(self, norm(v) if self.kind == 'c' else _dropim(v))

    def __setitem__(self, i, v):
        if isinstance(v, PartView):
            v = v.__symarray__()
        if isinstance(i, SymBoolArray):
            i = i.tobool()
        if isinstance(v, (list, tuple)):
            v = tosym(v)
        if isinstance(v, np.ndarray):
            tgt = np.ndarray.__getitem__(self, i)
            if not isinstance(tgt, np.ndarray) and v.ndim > 0:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            v = tosym(v)
            if self.kind == 'f' and v.kind != 'f':
                v = mk(v.shape, [_dropim(x) for x in np.asarray(v).reshape(-1)])
            np.ndarray.__setitem__(self, i, np.asarray(v))
        else:
            np.ndarray.__setitem__(self, i, norm(v) if self.kind == 'c' else _dropim(v))

    def __getitem__(self, i):
        if isinstance(i, SymBoolArray):
            i = i.tobool()
        r = np.ndarray.__getitem__(self, i)
        return r

    def item(self, *a):
        return np.asarray(self).item(*a)

    def tolist(self):
        return np.asarray(self).tolist()

    def sum(self, axis=None, **k):
        if axis is None:
            s = ZERO
            for x in np.asarray(self).reshape(-1):
                s = s + x
            return norm(s)
        return unwrap(np.add.reduce(np.asarray(self), axis=axis))

    def any(self, axis=None, **k):
        return _any(self, axis)

    def all(self, axis=None, **k):
        return _all(self, axis)

    def dot(self, o):
        return dot(self, o)

    def trace(self, *a, **k):
        s = ZERO
        for i in range(min(self.shape)):
            s = s + self[i, i]
        return s

    def max(self, *a, **k):
        return _reduce(self, lambda m, x: x if bool(x > m) else m)

    def min(self, *a, **k):
        return _reduce(self, lambda m, x: x if bool(x < m) else m)

    def nonzero(self):
        return np.array([bool(x != 0) for x in np.asarray(self).reshape(-1)]
                        ).reshape(self.shape).nonzero()

    def __float__(self):
        if self.ndim > 0:
            raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
        return self.item()

    def __array_function__(self, func, types_, args, kwargs):
        h = FUNCS.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        args = _strip(args)
        kwargs = {k: _strip(v) for k, v in kwargs.items()}
        return unwrap_any(func(*args, **kwargs))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        out = kwargs.pop('out', None)
        kwargs.pop('dtype', None)
        kwargs.pop('casting', None)
        if method == 'outer' and ufunc.__name__ in BIN:
            a, b = [tosym(x) for x in inputs]
            fn = BIN[ufunc.__name__]
            r = mk(a.shape + b.shape, [fn(x, y) for x in np.asarray(a).reshape(-1)
                                       for y in np.asarray(b).reshape(-1)])
        elif method == 'reduce' and ufunc.__name__ in BIN:
            r = unwrap(ufunc.reduce(np.asarray(inputs[0]), **kwargs))
        elif method != '__call__':
            raise Unsupported('ufunc method %s.%s' % (ufunc.__name__, method))
        elif ufunc.__name__ in UN and len(inputs) == 1:
            fn = UN[ufunc.__name__]
            r = elementwise(fn, tosym(inputs[0]))
        elif ufunc.__name__ == 'matmul':
            r = matmul(*inputs)
        elif ufunc.__name__ in BIN and len(inputs) == 2:
            fn = BIN[ufunc.__name__]
            a, b = np.broadcast_arrays(np.asarray(tosym(inputs[0])), np.asarray(tosym(inputs[1])))
            vals = [fn(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))]
            if ufunc.__name__ in CMP:
                r = np.array(_decide_all(vals), dtype=bool).reshape(a.shape)
            else:
                r = mk(a.shape, vals)
        elif ufunc.nout == 1 and isinstance(ufunc, np.ufunc) and 'vectorized' not in ufunc.__name__:
            bc = np.broadcast_arrays(*[np.asarray(tosym(x)) for x in inputs])
            r = mk(bc[0].shape, [ufcall(ufunc, *x) for x in zip(*[b.reshape(-1) for b in bc])])
        elif ufunc.nout == 1 and 'vectorized' in ufunc.__name__:
            r = unwrap(ufunc(*[_strip(x) for x in inputs]))
        else:
            raise Unsupported('ufunc %s' % ufunc.__name__)
        if isinstance(r, np.ndarray) and r.ndim == 0:
            r = r.item()
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r

    def _inplace(self, r):
        if self.kind == 'f' and any(isinstance(x, Sym) and not x.isreal() or isinstance(x, _c128) and x.imag != 0
                                    for x in np.asarray(tosym(r)).reshape(-1)):
            raise TypeError("Cannot cast ufunc output from dtype('complex128') to dtype('float64') "
                            "with casting rule 'same_kind'")
        if np.shape(_strip(r)) != self.shape:
            raise ValueError('non-broadcastable output operand')
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __ipow__(self, o):
        return self._inplace(self ** o)

    def __imatmul__(self, o):
        return self._inplace(self @ o)

    def round(self, decimals=0, **k):
        return mk(self.shape, [_round(x, decimals) for x in np.asarray(self).reshape(-1)])

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __repr__(self):
        return 'SymArray%r' % (self.shape,)

    __str__ = __repr__

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def __deepcopy__(self, memo):
        return self.copy()


class SymBoolArray:
    pass


def _strip(x):
    if isinstance(x, SymArray):
        return np.asarray(x)
    if isinstance(x, PartView):
        return np.asarray(x.__symarray__())
    if isinstance(x, (list, tuple)):
        return type(x)(_strip(y) for y in x)
    return x


def unwrap_any(r):
    if isinstance(r, np.ndarray):
        return unwrap(r)
    if isinstance(r, (list, tuple)):
        return type(r)(unwrap_any(x) for x in r)
    return r


def _nan(x):
    x = norm(x)
    if isinstance(x, Poison):
        return x.c != x.c
    if isinstance(x, Sym):
        return False
    return bool(np.isnan(x))


def _inf(x):
    x = norm(x)
    if isinstance(x, Poison):
        return x.c == x.c
    if isinstance(x, Sym):
        return False
    return bool(np.isinf(x))


def _sqrt(x):
    if isinstance(x, (Sym, Poison)):
        return x.sqrt()
    return np.sqrt(x)


CANON = {'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan', 'arcsinh': 'asinh', 'arccosh': 'acosh',
         'arctanh': 'atanh', 'power': 'pow', 'rint': 'round'}
REALUF = {'exp', 'log', 'log2', 'log10', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh',
          'tanh', 'asinh', 'acosh', 'atanh', 'round', 'floor', 'ceil', 'trunc', 'sign', 'cbrt', 'erf', 'gamma'}


def ufcall(f, *a):
    """an elementary function without an encoding of its own: evaluated on constants, else uninterpreted"""
    name = f if isinstance(f, str) else f.__name__
    name = CANON.get(name, name)
    a = [norm(x) for x in a]
    if any(isinstance(x, Poison) for x in a):
        return Poison()
    if not any(isinstance(x, Sym) for x in a):
        g = getattr(np, name) if isinstance(f, str) else f
        return g(*[x.real if isinstance(x, _c128) and x.imag == 0 else x for x in a])
    if name == 'arctan2' or name == 'atan2':
        return (lift(a[1]) + 1j * lift(a[0])).angle()
    if name == 'hypot':
        return builtins.abs(lift(a[0]) + 1j * lift(a[1]))
    if name in REALUF:
        from .core import uf
        a = tuple(lift(x) for x in a)
        return uf('fn.' + name, a, kind='real' if a[0].isreal() else 'cplx')
    raise Unsupported('ufunc %s' % name)


def _round(x, nd=0):
    x = norm(x)
    if isinstance(x, Poison):
        return x
    if isinstance(x, Sym):
        from .core import uf
        return uf('fn.round', (x, nd), kind='real' if x.isreal() else 'cplx')
    return np.round(x, nd)


def _real(x):
    return x.real


def _ang(x):
    if isinstance(x, (Sym, Poison)):
        return x.angle()
    return np.angle(x)


UN = {
    'negative': lambda x: -x, 'positive': lambda x: x, 'conjugate': lambda x: x.conjugate(),
    'absolute': abs, 'isnan': _nan, 'isinf': _inf,
    'isfinite': lambda x: not (_nan(x) or _inf(x)), 'sqrt': _sqrt,
    'square': lambda x: x * x, 'reciprocal': lambda x: 1 / x, 'fabs': abs,
    'logical_not': lambda x: not bool(x != 0),
}
BIN = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b,
    'true_divide': lambda a, b: a / b, 'power': lambda a, b: a ** (
        b.real if isinstance(b, _c128) else b),
    'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'less': lambda a, b: _r(a) < _r(b), 'less_equal': lambda a, b: _r(a) <= _r(b),
    'greater': lambda a, b: _r(a) > _r(b), 'greater_equal': lambda a, b: _r(a) >= _r(b),
    'logical_and': lambda a, b: bool(a != 0) and bool(b != 0),
    'logical_or': lambda a, b: bool(a != 0) or bool(b != 0),
    'maximum': lambda a, b: a if bool(_r(a) >= _r(b)) else b,
    'minimum': lambda a, b: a if bool(_r(a) <= _r(b)) else b,
}
CMP = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal',
       'logical_and', 'logical_or'}


def _r(x):
    if isinstance(x, (complex, _c128)) and x.imag == 0:
        return float(x.real)
    return x


def _reduce(a, fn):
    it = iter(np.asarray(a).reshape(-1))
    m = _r(next(it))
    for x in it:
        m = fn(m, _r(x))
    return m


def _along(fn, a, axis):
    a = np.asarray(_strip(a))
    if not isinstance(axis, (int, np.integer)):
        raise Unsupported('reduction over several axes')
    m = np.moveaxis(a, axis, -1)
    flat = m.reshape(-1, m.shape[-1])
    return np.array([fn(r) for r in flat], dtype=bool).reshape(m.shape[:-1])


def _truths(a):
    return [x if isinstance(x, (bool, np.bool_, SymBool)) else x != 0 for x in np.asarray(_strip(a)).reshape(-1)]


def _any(a, axis=None, **k):
    if axis is not None:
        return _along(_any, a, axis)
    return bool(_disj(_truths(a)))


def _all(a, axis=None, **k):
    if axis is not None:
        return _along(_all, a, axis)
    return bool(_conj(_truths(a)))


def _tree(vals, fn):
    vals = list(vals)
    while len(vals) > 1:
        vals = [fn(vals[i], vals[i + 1]) if i + 1 < len(vals) else vals[i] for i in range(0, len(vals), 2)]
    return vals[0]


def _uniq(vals):
    d = {}
    for v in vals:
        d.setdefault(v.key(), v)
    return list(d.values())


def _conj(vals):
    """one condition: all of them hold"""
    syms = []
    for v in vals:
        if isinstance(v, SymBool):
            syms.append(v)
        elif not v:
            return False
    return _tree(_uniq(syms), sand) if syms else True


def _disj(vals):
    """one condition: at least one of them holds"""
    syms = []
    for v in vals:
        if isinstance(v, SymBool):
            syms.append(v)
        elif v:
            return True
    return _tree(_uniq(syms), sor) if syms else False


def _decide_all(vals):
    """decide every comparison of an array; the case that all of them go the non-generic way is tried as one decision"""
    from . import explore
    syms = _uniq([v for v in vals if isinstance(v, SymBool)])
    cur = explore.CUR
    if cur is not None and len(syms) > 1 and not any(v.key() in cur.known for v in syms):
        gen = [explore.default(v) for v in syms]
        if len(set(gen)) == 1:
            if cur.decide(_conj([snot(v) if gen[0] else v for v in syms]), weak=True):
                return [(not gen[0]) if isinstance(v, SymBool) else bool(v) for v in vals]
    return [bool(v) for v in vals]


# ----------------------------------------------------------------- contraction

def einsum(subs, *ops, **kw):
    if not isinstance(subs, str):
        al = (subs,) + ops

        def idx(x):
            return ''.join('...' if i is Ellipsis else _L2[i] for i in x)
        out = '->' + idx(al[-1]) if len(al) % 2 else ''
        subs = ','.join(idx(x) for x in al[1:len(al) - len(al) % 2:2]) + out
        ops = al[0:len(al) - len(al) % 2:2]
    subs = subs.replace(' ', '')
    ops = [np.asarray(tosym(_strip(o))) for o in ops]
    if '...' in subs:
        lhs, arrow, out = subs.partition('->')
        ins = lhs.split(',')
        free = [c for c in _L2 + 'αβγδεζηθικλμ' if c not in subs]
        n = [o.ndim - len(x.replace('...', '')) if '...' in x else 0 for x, o in zip(ins, ops)]
        if len(ins) != len(ops) or min(n) < 0:
            raise ValueError('einsum: operand has wrong number of dimensions')
        lab = ''.join(free[:builtins.max(n)])
        ell = [lab[len(lab) - k:] for k in n]
        # broadcasting of the ellipsis dimensions
        dim = {}
        for x, o, e in zip(ins, ops, ell):
            p = x.find('...')
            for i, c in enumerate(e):
                dim[c] = builtins.max(dim.get(c, 1), o.shape[p + i])
        for q, (x, e) in enumerate(zip(ins, ell)):
            p = x.find('...')
            if p >= 0:
                sh = list(ops[q].shape)
                sh[p:p + len(e)] = [dim[c] for c in e]
                ops[q] = np.broadcast_to(ops[q], sh)
        ins = [x.replace('...', e) for x, e in zip(ins, ell)]
        if arrow:
            out = out.replace('...', lab)
        else:
            allc = ''.join(ins)
            out = lab + ''.join(sorted(c for c in set(allc) if allc.count(c) == 1 and c not in lab))
        subs = ','.join(ins) + '->' + out
    if '->' in subs:
        lhs, out = subs.split('->')
        ins = lhs.split(',')
    else:
        ins = subs.split(',')
        allc = ''.join(ins)
        out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    if len(ins) != len(ops):
        raise ValueError('einsum: number of operands does not match subscripts')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum: operand has wrong number of dimensions')
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError('einsum: dimension mismatch')
    for c in out:
        if c not in dims:
            raise ValueError('einsum: bad output subscript')
    # pairwise contraction, right to left, keeping only needed indices
    cur_s, cur = _dedup(ins[-1], ops[-1])
    rest = list(zip(ins[:-1], ops[:-1]))
    while rest:
        s, o = rest.pop()
        s, o = _dedup(s, o)
        need = set(out)
        for s2, _ in rest:
            need |= set(s2)
        res = ''.join(c for c in dict.fromkeys(s + cur_s) if c in need)
        cur = _contract(s, o, cur_s, cur, res, dims)
        cur_s = res
    # final reduction / permutation
    if cur_s != out:
        cur = _contract('', np.array(_c128(1), dtype=object), cur_s, cur, out, dims)
    return unwrap(np.asarray(cur))


def _dedup(s, o):
    """take diagonals for repeated indices inside one operand"""
    while len(set(s)) != len(s):
        for c in s:
            if s.count(c) > 1:
                i = s.index(c)
                j = s.index(c, i + 1)
                o = np.diagonal(o, axis1=i, axis2=j)
                s = s[:i] + s[i + 1:j] + s[j + 1:] + c
                break
    return s, o


def _contract(s1, o1, s2, o2, out, dims):
    from itertools import product
    summed = [c for c in dict.fromkeys(s1 + s2) if c not in out]
    shape = tuple(dims[c] for c in out)
    res = np.empty(shape, dtype=object)
    for oi in np.ndindex(*shape):
        env = dict(zip(out, oi))
        acc = {}
        cacc = 0j
        poison = None
        from .core import _addto
        for si in product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            a = o1[tuple(env[c] for c in s1)]
            b = o2[tuple(env[c] for c in s2)]
            if isinstance(a, _c128) and a == 0 or isinstance(b, _c128) and b == 0:
                if isinstance(a, Poison) or isinstance(b, Poison):
                    poison = Poison()
                elif _nan(a) or _nan(b):
                    poison = Poison()
                continue
            x = a * b
            if isinstance(x, Sym):
                for m, c in x.t.items():
                    _addto(acc, m, c)
            elif isinstance(x, Poison):
                poison = x
            elif x != x:
                poison = Poison()
            else:
                cacc += complex(x)
        if poison is not None:
            res[oi] = poison
        else:
            if cacc != 0:
                _addto(acc, (), cacc)
            res[oi] = norm(Sym(acc))
    return res


_L = 'abcdefghijklmnopqrstuvwxyz'
_L2 = _L + _L.upper()


def matmul(a, b):
    a, b = tosym(_strip(a)), tosym(_strip(b))
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: scalar operand')
    return dot2(a, b)


def dot2(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim <= 1 and b.ndim <= 1:
        return einsum('i,i->', a, b)
    if b.ndim == 1:
        return einsum('...i,i->...', a, b)
    if a.ndim == 1:
        return einsum('i,...ij->...j', a, b)
    return einsum('...ij,...jk->...ik', a, b)


def dot(a, b, *k):
    a, b = _strip(a), _strip(b)
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return unwrap(np.asarray(tosym(a)) * np.asarray(tosym(b)))
    a, b = np.asarray(tosym(a)), np.asarray(tosym(b))
    sa = _L[:a.ndim]
    if b.ndim == 1:
        return einsum(sa + ',' + sa[-1] + '->' + sa[:-1], a, b)
    sb = _L[a.ndim:a.ndim + b.ndim]
    sb = sb[:-2] + sa[-1] + sb[-1]
    return einsum(sa + ',' + sb + '->' + sa[:-1] + sb.replace(sa[-1], ''), a, b)


def tensordot(a, b, axes=2):
    a, b = np.asarray(tosym(_strip(a))), np.asarray(tosym(_strip(b)))
    if isinstance(axes, int):
        aa = list(range(a.ndim - axes, a.ndim))
        bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]
    bb = [x % b.ndim for x in bb]
    sa = list(_L[:a.ndim])
    sb = list(_L[a.ndim:a.ndim + b.ndim])
    for x, y in zip(aa, bb):
        sb[y] = sa[x]
    out = ''.join(c for c in sa + sb if (sa + sb).count(c) == 1)
    return einsum(''.join(sa) + ',' + ''.join(sb) + '->' + out, a, b)


def diag(v, k=0):
    v = tosym(_strip(v))
    if v.ndim == 1:
        n = v.shape[0] + builtins.abs(k)
        r = mk((n, n))
        for i in range(v.shape[0]):
            r[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
        return r
    return unwrap(np.diagonal(np.asarray(v), offset=k).copy())


def where(c, *ab):
    if not ab:
        return tosym(c).nonzero() if _hassym(c) else np.nonzero(c)
    a, b = ab
    if isinstance(c, SymBool):
        c = bool(c)
    c = np.asarray(_strip(c))
    a, b = np.asarray(tosym(_strip(a))), np.asarray(tosym(_strip(b)))
    c, a, b = np.broadcast_arrays(c, a, b)
    return unwrap(np.asarray(mk(c.shape, [x if bool(k) else y for k, x, y in zip(
        c.reshape(-1), a.reshape(-1), b.reshape(-1))])))


def _un(fn):
    def f(x, *a, **k):
        if isinstance(x, (Sym, Poison)):
            return fn(x)
        if _hassym(x):
            return unwrap(np.asarray(elementwise(lambda y: fn(norm(y)), tosym(x))))
        return NotImplemented
    return f


def _nan_to_num(x, copy=True, nan=0.0, **k):
    if isinstance(x, Poison):
        return nan
    if isinstance(x, Sym):
        return x
    x = tosym(x)
    return mk(x.shape, [nan if _nan(y) else y for y in np.asarray(x).reshape(-1)])


def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = np.broadcast_arrays(np.asarray(tosym(_strip(a))), np.asarray(tosym(_strip(b))))
    return bool(_conj([builtins.abs(x - y) <= atol + rtol * builtins.abs(y) for x, y in zip(a.reshape(-1), b.reshape(-1))]))


def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not isinstance(a, (np.ndarray, PartView, list)) and not isinstance(b, (np.ndarray, PartView, list)):
        return builtins.abs(a - b) <= atol + rtol * builtins.abs(b)
    a, b = np.broadcast_arrays(np.asarray(tosym(_strip(a))), np.asarray(tosym(_strip(b))))
    return np.array([bool(builtins.abs(x - y) <= atol + rtol * builtins.abs(y))
                     for x, y in zip(a.reshape(-1), b.reshape(-1))], dtype=bool).reshape(a.shape)


def _einsum_entry(subs, *ops, **kw):
    if _hassym(list(ops)):
        return einsum(subs, *ops)
    return NotImplemented


def _copyto(dst, src, **k):
    dst[...] = src


def _array_equal(a, b, **k):
    a, b = np.asarray(_strip(a)), np.asarray(_strip(b))
    if a.shape != b.shape:
        return False
    return bool(_conj([x == y for x, y in zip(a.reshape(-1), b.reshape(-1))]))


def _outer(a, b, **k):
    a, b = tosym(_strip(a)), tosym(_strip(b))
    return mk((a.size, b.size), [x * y for x in np.asarray(a).reshape(-1)
                                 for y in np.asarray(b).reshape(-1)])


def _norm(a, ord=None, axis=None, **k):
    a = tosym(_strip(a))
    if axis is not None or ord not in (None, 2, 'fro') or ord == 2 and a.ndim > 1:
        raise Unsupported('linalg.norm with axis or ord')
    t = ZERO
    for x in np.asarray(a).reshape(-1):
        t = t + x * x.conjugate()
    return lift(t).sqrt()


def _det(a):
    a = tosym(_strip(a))
    n = a.shape[0]
    if n > 3:
        raise Unsupported('determinant')
    if n == 1:
        return a[0, 0]
    t = ZERO
    for j in range(n):
        t = t + (-1) ** j * a[0, j] * _det(mk((n - 1, n - 1), [a[i, k] for i in range(1, n) for k in range(n) if k != j]))
    return t


def _inv(a):
    a = tosym(_strip(a))
    n = a.shape[0]
    d = _det(a)

    def minor(i, j):
        m = [a[r, c] for r in range(n) for c in range(n) if r != i and c != j]
        return _det(mk((n - 1, n - 1), m)) if n > 1 else 1
    return mk((n, n), [(-1) ** (i + j) * minor(j, i) / d for i in range(n) for j in range(n)])


def _multi_dot(l, **k):
    r = l[0]
    for x in l[1:]:
        r = dot(r, x)
    return r


def _matrix_power(a, n):
    a = tosym(_strip(a))
    if n < 0:
        a, n = _inv(a), -n
    r = mk(a.shape, np.eye(a.shape[0]).reshape(-1))
    for _ in range(n):
        r = matmul(r, a)
    return r


LINALG = {'norm': _norm, 'det': _det, 'inv': _inv, 'multi_dot': _multi_dot, 'matrix_power': _matrix_power}


class LinalgProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **k):
            if _symbolic(list(a)):
                if n in LINALG:
                    return LINALG[n](*a, **k)
                raise Unsupported('numpy.linalg.%s' % n)
            return unwrap_any(_wrapnum(f(*[_conc(x) for x in a], **k)))
        return g


def _symbolic(x):
    if isinstance(x, (Sym, Poison)):
        return not isinstance(x, Sym) or not x.is_const()
    if isinstance(x, PartView):
        x = x.__symarray__()
    if isinstance(x, SymArray):
        x = list(np.asarray(x).reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(_symbolic(y) for y in x)
    return False


def _conc(x):
    """concrete counterpart of an argument without symbolic entries"""
    if isinstance(x, Sym):
        x = x.constval()
        return x.real if x.imag == 0 else x
    if isinstance(x, PartView):
        x = x.__symarray__()
    if isinstance(x, SymArray):
        r = np.array([complex(y) for y in np.asarray(x).reshape(-1)]).reshape(x.shape)
        return r.real if x.kind == 'f' else r
    if isinstance(x, (list, tuple)):
        return type(x)(_conc(y) for y in x)
    return x


def _wrapnum(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in 'fc':
        return _typed(mk(r.shape, r.reshape(-1)), r.dtype)
    if isinstance(r, tuple):
        return tuple(_wrapnum(x) for x in r)
    return r


class Vectorize:
    def __init__(self, f=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if excluded or signature or f is None:
            raise Unsupported('np.vectorize with excluded or signature')
        self.f = f

    def __call__(self, *a):
        bc = np.broadcast_arrays(*[np.asarray(_strip(x), dtype=object if _hassym(x) else None)
                                   if not isinstance(x, Sym) else np.asarray(mk((), [x])) for x in a])
        out = [self.f(*x) for x in zip(*[b.reshape(-1) for b in bc])]
        if out and isinstance(out[0], tuple):
            return tuple(unwrap(mk(bc[0].shape, [o[i] for o in out])) for i in range(len(out[0])))
        return unwrap(mk(bc[0].shape, out))


FUNCS = {
    'einsum': lambda s, *o, **k: einsum(s, *o), 'dot': dot, 'tensordot': tensordot,
    'diag': diag, 'where': where, 'any': _any, 'all': _all,
    'angle': _un(_ang), 'real': lambda x: x.real, 'imag': lambda x: x.imag,
    'nan_to_num': _nan_to_num, 'allclose': _allclose, 'isclose': _isclose,
    'sum': lambda a, axis=None, **k: tosym(a).sum(axis=axis), 'copyto': _copyto,
    'array_equal': _array_equal, 'outer': _outer, 'trace': lambda a, *k: tosym(a).trace(),
    'copy': lambda a, **k: tosym(a).copy(), 'nonzero': lambda a: tosym(a).nonzero(),
    'count_nonzero': lambda a, **k: len(tosym(a).nonzero()[0]),
    'max': lambda a, **k: tosym(a).max(), 'min': lambda a, **k: tosym(a).min(),
    'amax': lambda a, **k: tosym(a).max(), 'amin': lambda a, **k: tosym(a).min(),
    'zeros_like': lambda a, dtype=None, **k: _like(a, dtype, 0), 'ones_like': lambda a, dtype=None, **k: _like(a, dtype, 1),
    'empty_like': lambda a, dtype=None, **k: _like(a, dtype, Poison()),
    'full_like': lambda a, v, dtype=None, **k: _like(a, dtype, v),
    'iscomplexobj': lambda a: a.kind == 'c' if isinstance(a, SymArray) else True,
    'isrealobj': lambda a: a.kind != 'c' if isinstance(a, SymArray) else False,
    'shape': lambda a: tuple(int(x) for x in a.shape), 'ndim': lambda a: a.ndim,
    'size': lambda a: a.size,
    'round': lambda a, decimals=0, **k: _round(a, decimals) if isinstance(a, Sym) else tosym(a).round(decimals),
    'around': lambda a, decimals=0, **k: _round(a, decimals) if isinstance(a, Sym) else tosym(a).round(decimals),
}

# ----------------------------------------------------------------- numpy proxy


def _iscfloat(dtype):
    if dtype is None:
        return True
    n = getattr(dtype, '_symname', None)
    if n is not None:
        return n in ('float', 'complex')
    try:
        return np.dtype(dtype).kind in 'fcO'
    except TypeError:
        return True


def _kindof(dtype, default='f'):
    """'f' for a real dtype, 'c' for a complex or unknown one"""
    if dtype is None:
        return default
    n = getattr(dtype, '_symname', None)
    if n is not None:
        return 'f' if n in ('float', 'int') else 'c'
    try:
        return 'f' if np.dtype(dtype).kind in 'fiub' else 'c'
    except TypeError:
        return 'c'


def _typed(a, dtype, default='c'):
    """array `a` (owned) converted to dtype"""
    k = _kindof(dtype, default)
    if k == 'f':
        if a.kind != 'f':
            a = mk(a.shape, [_dropim(x) for x in np.asarray(a).reshape(-1)])
        return realtyped(a)
    if dtype is not None:
        a.kind = 'c'
    return a


def _like(a, dtype, fill):
    k = a.kind if isinstance(a, SymArray) else _kindof(getattr(a, 'dtype', None), 'c')
    return _typed(mk(np.shape(a), fill=fill), dtype, k)


def _mkshape(s):
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    return tuple(int(x) for x in s)


def _rdt(dtype):
    """dtype for real numpy of a (possibly patched) non-float dtype"""
    n = getattr(dtype, '_symname', None)
    return {'int': int, 'float': float, 'complex': complex}.get(n, dtype)


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_real'] = np
        from . import patched
        self.__dict__['pi'] = math.pi
        self.__dict__['linalg'] = LinalgProxy()
        self.__dict__['vectorize'] = Vectorize

    def dtype(self, x):
        if isinstance(x, SymDtype):
            return x
        n = getattr(x, '_symname', None)
        return SymDtype({'float': 'f', 'complex': 'c'}[n]) if n in ('float', 'complex') else np.dtype(_rdt(x))

    def result_type(self, *a):
        if _hassym(list(a)) or any(isinstance(x, SymDtype) for x in a):
            return SymDtype('c' if any(self.iscomplexobj(x) if not isinstance(x, SymDtype) else x.kind == 'c'
                                       for x in a) else 'f')
        return np.result_type(*a)

    def issubdtype(self, a, b):
        def d(x):
            if isinstance(x, SymDtype):
                return np.dtype(x.name)
            return {'int': np.int64, 'float': np.float64, 'complex': np.complex128}.get(
                getattr(x, '_symname', None), x)
        if getattr(b, '_general', None):
            b = b._general
        return np.issubdtype(d(a), d(b))

    def zeros(self, shape, dtype=None, *a, **k):
        if not _iscfloat(dtype):
            return np.zeros(shape, _rdt(dtype))
        return _typed(mk(_mkshape(shape)), dtype, 'f')

    def ones(self, shape, dtype=None, *a, **k):
        if not _iscfloat(dtype):
            return np.ones(shape, _rdt(dtype))
        return _typed(mk(_mkshape(shape), fill=1), dtype, 'f')

    def empty(self, shape, dtype=None, *a, **k):
        if not _iscfloat(dtype):
            return np.zeros(shape, _rdt(dtype))
        return _typed(mk(_mkshape(shape), fill=Poison()), dtype, 'f')

    def full(self, shape, v, dtype=None, *a, **k):
        if dtype is not None and not _iscfloat(dtype):
            return np.full(shape, v, _rdt(dtype))
        if dtype is None and isinstance(v, (bool, int, str)):
            return np.full(shape, v)
        return _typed(mk(_mkshape(shape), fill=v), dtype, 'f' if isinstance(v, (float, np.floating)) else 'c')

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        e = np.eye(n, m, k)
        return _typed(mk(e.shape, e.reshape(-1)), dtype, 'f')

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def array(self, x, dtype=None, copy=True, **k):
        if dtype is not None and not _iscfloat(dtype):
            return np.array(x, dtype=_rdt(dtype))
        if dtype is None and not _hassym(x):
            r = np.array(x)
            if r.dtype.kind in 'fc':
                return _typed(mk(r.shape, r.reshape(-1)), r.dtype)
            return r
        r = tosym(x)
        if r is x and (copy is not False or dtype is not None and _kindof(dtype) != r.kind):
            r = x.copy()
        return _typed(r, dtype) if dtype is not None and r is not x else r

    def asarray(self, x, dtype=None, **k):
        return self.array(x, dtype=dtype, copy=False)

    asanyarray = asarray
    ascontiguousarray = asarray

    def shape(self, x):
        if isinstance(x, (Sym, Poison)):
            return ()
        if isinstance(x, PartView):
            return x.base.shape
        return np.shape(x)

    def ndim(self, x):
        return len(self.shape(x))

    def size(self, x):
        if isinstance(x, (Sym, Poison)):
            return 1
        return np.size(x)

    def isscalar(self, x):
        return isinstance(x, (Sym, Poison)) or np.isscalar(x)

    def zeros_like(self, a, dtype=None, **k):
        return _like(a, dtype, 0) if _iscfloat(dtype) else np.zeros_like(a, dtype=_rdt(dtype))

    def empty_like(self, a, dtype=None, **k):
        return _like(a, dtype, Poison())

    def ones_like(self, a, dtype=None, **k):
        return _like(a, dtype, 1)

    def full_like(self, a, v, dtype=None, **k):
        return _like(a, dtype, v)

    def matmul(self, a, b):
        return matmul(a, b)

    def diag(self, v, k=0):
        return diag(v, k)

    def where(self, c, *ab):
        if isinstance(c, SymBool) or _hassym(c) or _hassym(list(ab)):
            return where(c, *ab)
        return np.where(c, *ab)

    def conj(self, x):
        if isinstance(x, (Sym, Poison)):
            return x.conjugate()
        if _hassym(x):
            return tosym(x).conj()
        return np.conj(x)

    conjugate = conj

    def real(self, x):
        return x.real if hasattr(x, 'real') else np.real(x)

    def imag(self, x):
        return x.imag if hasattr(x, 'imag') else np.imag(x)

    def copy(self, x, **k):
        return tosym(x).copy()

    def iscomplexobj(self, x):
        if isinstance(x, Sym):
            return not x.isreal()
        if isinstance(x, SymArray):
            return x.kind == 'c'
        if isinstance(x, PartView):
            return False
        return _hassym(x) or np.iscomplexobj(x)

    def iscomplex(self, x):
        if isinstance(x, Sym):
            return x.imag != 0
        return np.iscomplex(x)

    def isreal(self, x):
        if isinstance(x, Sym):
            return x.imag == 0
        return np.isreal(x)

    def __getattr__(self, name):
        f = getattr(np, name)
        u = {'abs': 'absolute', 'true_divide': 'divide'}.get(name, name)
        if isinstance(f, np.ufunc):
            if u in ('add', 'subtract', 'multiply', 'logical_and', 'logical_or') :
                pass
            return _UfuncProxy(f, u)
        if name in ('complex128', 'complex64', 'cdouble', 'complexfloating'):
            from . import patched
            return patched.NpComplex if name != 'complexfloating' else patched.NpComplexFloating
        if name in ('float64', 'float32', 'double'):
            from . import patched
            return patched.NpFloat
        if name in FUNCS:
            h = FUNCS[name]

            def g(*a, **k):
                if _hassym(list(a)) or _hassym(list(k.values())):
                    r = h(*a, **k)
                    if r is not NotImplemented:
                        return r
                return f(*a, **k)
            return g
        if callable(f) and not isinstance(f, type):
            def g2(*a, **k):
                r = f(*a, **{x: _rdt(y) if x == 'dtype' else y for x, y in k.items()})
                return unwrap_any(r)
            return g2
        return f


class _UfuncProxy:
    def __init__(self, f, name):
        self.f, self.name = f, name

    def __call__(self, *a, **k):
        if any(isinstance(x, (Sym, Poison, SymBool)) for x in a) and not any(
                isinstance(x, (np.ndarray, PartView, list)) for x in a):
            fn = UN.get(self.name) if len(a) == 1 else BIN.get(self.name)
            if fn is None:
                return ufcall(self.f, *a)
            return fn(*a)
        if _hassym(list(a)):
            b = [tosym(x) if isinstance(x, (list, tuple, PartView)) or _hassym(x) else x for x in a]
            return self.f(*b, **k) if any(isinstance(x, SymArray) and x.ndim for x in b) else \
                SymArray.__array_ufunc__(mk((), [0]), self.f, '__call__', *b, **k)
        return self.f(*a, **k)

    def outer(self, a, b, **k):
        if _hassym([a, b]):
            return SymArray.__array_ufunc__(mk((), [0]), self.f, 'outer', a, b)
        return self.f.outer(a, b, **k)

    def reduce(self, a, **k):
        if _hassym(a):
            return SymArray.__array_ufunc__(mk((), [0]), self.f, 'reduce', tosym(a), **k)
        return self.f.reduce(a, **k)
