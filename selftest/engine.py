"""Self-test of the symbolic engine: numpy idioms evaluated on symbolic arrays, with values filled in afterwards, must agree with
numpy on those values.  Run: /opt/venv/bin/python selftest/engine.py"""
import copy
import functools
import itertools
import operator
import os
import sys
import cmath
import math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as rnp
import symx
from symx import core, arrays, loader, patched, explore
from symx.core import Sym, Unsupported
from symx.arrays import mk, NumpyProxy

rng = rnp.random.default_rng(3)
VAL = {}


def cplx(name):
    a = core.TABLE.get(('in', name), name, 'cplx', -1, 1)
    VAL[a.id] = complex(*rng.uniform(-1, 1, 2))
    VAL[a.conj_id] = VAL[a.id].conjugate()
    return Sym.atom(a), VAL[a.id]


def real(name, lo=-1.):
    a = core.TABLE.get(('in', name), name, 'real' if lo < 0 else 'pos', lo, 1)
    VAL[a.id] = float(rng.uniform(max(lo, 0.1) if lo >= 0 else lo, 1))
    return Sym.atom(a), VAL[a.id]


def arr(name, shape, f=cplx):
    p = [f('%s%s' % (name, i)) for i in itertools.product(*map(range, shape))]
    return mk(shape, [x for x, v in p]), rnp.array([v for x, v in p]).reshape(shape)


def ev(x):
    if isinstance(x, arrays.PartView):
        x = x.__symarray__()
    if isinstance(x, (list, tuple)):
        return [ev(y) for y in x]
    if isinstance(x, dict):
        return {k: ev(v) for k, v in x.items()}
    if isinstance(x, rnp.ndarray):
        b = rnp.asarray(x)
        return rnp.array([ev(y) for y in b.reshape(-1)]).reshape(b.shape)
    if isinstance(x, Sym):
        return core.evaluate(x, lambda a: VAL[a.id] if a.id in VAL else uf(a))
    if isinstance(x, core.SymBool):
        return bool(x)
    if isinstance(x, core.Poison):
        return complex('nan')
    return x


def uf(a):
    if a.kind == 'conj':
        return uf(core.TABLE.atoms[a.conj_id]).conjugate()
    d = a.defn
    if d[0] == 'poly':
        return ev(d[1])
    args = [ev(x) for x in d[2]]
    if d[1] == 'abs':
        return abs(args[0])
    if d[1] == 'angle':
        return cmath.phase(args[0])
    if d[1].startswith('fn.'):
        f = getattr(rnp, {'asin': 'arcsin', 'atan': 'arctan'}.get(d[1][3:], d[1][3:]))
        return f(*[x.real if isinstance(x, complex) and x.imag == 0 else x for x in args])
    raise KeyError(a.name)


def decide(c):
    """conditions are evaluated at the values"""
    if c.op in ('and', 'or'):
        x, y = bool(c.a), bool(c.b)
        return x and y if c.op == 'and' else x or y
    if c.op == 'not':
        return not bool(c.a)
    d = ev(c.a)
    return {'eq': lambda: abs(d) < 1e-13, 'ne': lambda: abs(d) >= 1e-13, 'lt': lambda: d.real < 0,
            'le': lambda: d.real <= 1e-15}[c.op]()


explore.decide = decide


def same(a, b):
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, str) or b is None:
        return a == b
    if rnp.shape(a) != rnp.shape(b):
        return False
    return rnp.allclose(rnp.asarray(a, dtype=complex), rnp.asarray(b, dtype=complex), atol=1e-12)


CASES = '''
A + B
A - 2 * B / 3
A @ B
A @ v
v @ A
np.dot(A, B)
A.dot(B).dot(v)
np.matmul(A, B)
np.matmul(T, A)
np.matmul(A, T)
T @ T
np.einsum('ij,jk->ik', A, B)
np.einsum('ij,jk', A, B)
np.einsum('ii', A)
np.einsum('ij->ji', A)
np.einsum('ia,jb,kc,ld,ijkl->abcd', A, B, A.conj(), B, F)
np.einsum('ia,jb,kc,ld,ijkl->abcd', A, B, A.conj(), B, F, optimize=True)
np.einsum('...ij,jk->...ik', T, A)
np.einsum('ij...,jk->ik...', T, A)
np.einsum(A, [0, 1], B, [1, 2], [0, 2])
np.einsum('ijij', F)
np.einsum('pr,ts', A, B)
np.tensordot(A, B, axes=1)
np.tensordot(F, A, axes=([0], [1]))
np.tensordot(F, A, axes=((3,), (0,)))
np.tensordot(A, B, 0)
np.kron(A, B)
np.outer(v, w)
np.multiply.outer(A, B)
np.multiply.outer(v, w)
np.inner(v, w)
np.vdot(v, w)
np.trace(A)
A.trace()
A.T
A.conj().T
A.T.conj()
np.conj(A)
np.conjugate(A).transpose()
A.conjugate()
np.transpose(F, (1, 0, 3, 2))
np.transpose(F, axes=(2, 3, 0, 1))
F.transpose(1, 0, 3, 2)
F.transpose((1, 0, 3, 2)).conj()
F.swapaxes(0, 2)
np.swapaxes(F, 0, 2)
np.moveaxis(F, 0, -1)
np.rollaxis(F, 3)
A.real
A.imag
np.real(A) + 1j*np.imag(A)
np.sum(A)
A.sum()
A.sum(axis=0)
np.sum(A, axis=1)
np.prod(v)
v.prod()
np.diag(v)
np.diag(A)
np.diagonal(A)
A.diagonal()
np.triu(A)
np.tril(A, -1)
A[np.triu_indices(3)]
A[np.diag_indices(3)]
A[[0, 2], :]
A[:, [0, 2]]
A[np.ix_([0, 1], [1, 2])]
A[1]
A[1, 2]
A[-1, ::2]
F[0, :, 1]
F[..., 0]
np.array([A[0, 0], A[1, 1]])
np.array([[A[0, 0], 0], [0, B[1, 1]]])
np.array([A, B])
np.stack([A, B])
np.concatenate([A, B])
np.vstack([A, B])
np.hstack([A, B])
np.block([[A, B], [B, A]])
A.ravel()
A.flatten()
A.reshape(9)
A.reshape(-1)
A.reshape((9, 1))
np.reshape(A, 9)
np.ravel(A)
A.copy()
np.copy(A)
np.array(A)
np.asarray(A)
np.array(A, dtype=complex)
np.asarray(A, dtype=complex)
A.astype(complex)
A.shape
A.ndim
A.size
len(A)
np.shape(A)
np.shape(F)
np.ndim(x)
np.zeros_like(A)
np.ones_like(A) * A
np.zeros((3, 3), dtype=complex) + A
np.zeros(A.shape, dtype=A.dtype) + A
np.full((3, 3), x)
np.eye(3) * x
np.identity(3) @ A
np.abs(A)
abs(A)
np.absolute(x)
abs(x)
np.sqrt(p)
p**0.5
math.sqrt(p)
cmath.sqrt(p)
np.angle(x) * 0
x.real
x.imag
np.real(x)
np.imag(x)
x.conjugate()
np.conj(x)
x**2
x * x.conjugate()
np.square(x)
A**2
-A
+A
A / x
1 / p
2 * x
x * 2
x / 2
p**-1
p**-2
1j * A
A * v
v * A
v[:, None] * A
v[:, np.newaxis] * w[None, :]
A + 0
0 + A
sum([x, y, p])
sum(v)
functools.reduce(operator.add, [A, B, A])
functools.reduce(np.dot, [A, B, A])
np.linalg.multi_dot([A, B, A])
functools.reduce(operator.matmul, [A, B, A])
list(v)
[a for a in A.flat]
{i: a for i, a in np.ndenumerate(A)}
{i: F[i] for i in np.ndindex(F.shape)}
{i: F[i] for i in itertools.product(range(3), repeat=4)}
[r.sum() for r in A]
[a for r in A.tolist() for a in r]
A.item(1, 2)
A[1, 2].item()
complex(x)
complex(p, q)
float(p)
copy.deepcopy(A)
copy.deepcopy({'a': A, 'b': x})
copy.copy(A)
np.where(np.eye(3) > 0, A, B)
np.where([True, False, True], v, w)
np.nan_to_num(A)
np.add(A, B)
np.subtract(A, B)
np.multiply(A, B)
np.divide(A, x)
np.negative(A)
np.power(p, 2)
np.add.reduce(v)
np.multiply(x, A)
np.multiply(A, np.eye(3))
np.vectorize(lambda a: a * 2)(A)
np.apply_along_axis(lambda r: r * 2, 0, A)
np.array(list(map(lambda r: r * 2, A)))
np.array([[A[i, j] * B[j, i] for j in range(3)] for i in range(3)])
np.fromfunction(lambda i, j: i + j, (3, 3)) * A
np.expand_dims(v, 0)
np.squeeze(np.expand_dims(v, 0))
np.repeat(v, 2)
np.tile(v, 2)
np.roll(v, 1)
np.flip(v)
v[::-1]
np.broadcast_to(v, (3, 3))
np.broadcast_to(v, (3, 3)) * A
np.atleast_2d(v)
np.append(v, w)
np.take(A, [0, 2], axis=0)
np.delete(v, 1)
np.cumsum(v)
np.mean(v)
v.mean()
np.iscomplexobj(A)
np.isscalar(x)
np.isnan(A).any()
np.isfinite(x)
np.all(np.isfinite(A))
isinstance(A, np.ndarray)
isinstance(x, complex)
isinstance(p, float)
isinstance(x, (int, float, complex))
isinstance(x, np.ndarray)
isinstance(x, dict)
isinstance(x, numbers.Number)
hasattr(x, 'imag')
hasattr(A, 'shape')
type(p) is float
type(x) is complex
type(3.0) is float
type(3) in (int, float)
type({}) is dict
type(A) is np.ndarray
A.dtype == complex
A.dtype.kind
np.issubdtype(A.dtype, np.complexfloating)
setit(np.zeros((3, 3), dtype=complex), (1, 2), x)
setit(np.zeros((3, 3), dtype=complex), (slice(None), 2), v)
setit(np.zeros((3, 3, 3, 3), dtype=complex), (1, 2), A)
setit(np.zeros((2, 3, 3), dtype=complex), 0, A)
setit(np.array(A), (np.arange(3), np.arange(3)), 0)
setit(np.array(A), np.eye(3) > 0, 1)
setit(A.copy(), slice(None), B)
setit(A.copy(), np.triu_indices(3, 1), 0)
filldiag(A.copy(), 2)
filldiag(A.copy(), v)
iadd(A.copy(), B)
imul(A.copy(), x)
imul(A.copy(), B)
put(A.copy())
np.array([complex(1, 2), x])
np.array((x, y, p))
np.linalg.norm(v)**2
(v.conj() @ v).real
np.real_if_close(A)
np.round(p * 0 + 1.0)
max(abs(x)*0 + 1, 0.5)
np.unravel_index(5, (3, 3))
np.empty((3, 3), dtype=complex) * 0 if False else A
np.matrix(A) if False else A
np.lib.stride_tricks if False else A
np.allclose(A, A)
np.array_equal(A, A)
np.isclose(x, x)
np.isclose(A, A).all()
np.sign(p)
np.exp(p * 0)
x == x
x != 0
p > 0
p >= 0 and p < 2
0 < p
bool(x)
not x
np.count_nonzero(A)
np.any(A)
np.any(A != 0)
(A != 0).any()
np.nonzero(A)[0].tolist()
np.argwhere(A).tolist()
np.max(np.abs(v)) * 0
round(p * 0 + 2.0, 1)
'{}'.format(3.5)
pow(x, 2)
divmod(7, 2)
A.any()
v.tolist()
A.T is not None
(A.T @ B.conj()).T
A[..., None].shape
A.transpose().conj()
operator.itemgetter(1)(v)
operator.mul(x, y)
(lambda *a: a[0])(x)
np.sum([A, B], axis=0)
np.sum(a * b for a, b in zip(v, w)) if False else sum(a * b for a, b in zip(v, w))
np.prod([x, y])
np.float64(2) * x
np.complex128(2) * x
np.float64(2) * A
np.float64(p)
np.complex128(x)
x * np.float64(2)
np.pi * x
np.array(2.0) * x
x * np.array([1., 2.])
np.array([1., 2.]) * x
np.array([1, 2]) * x
np.arange(3) * x
[1, 2] * 2
np.array([[1, 2], [3, 4]]) @ np.array([x, y])
np.dot([1., 2.], [x, y])
np.eye(3, dtype=int) * x
np.linspace(0, 1, 3) * x
np.cross(v, w)
np.einsum('i,i', v, w.conj())
np.einsum('i,j,k->ijk', v, w, v)
np.einsum('ij,kl->ikjl', A, B).reshape(9, 9)
math.sqrt(x.real**2 + x.imag**2)
math.hypot(x.real, x.imag)
np.hypot(q, p)
math.atan2(x.imag, x.real)
np.arctan2(A.imag, A.real)
np.arctan2(x.imag, x.real)
math.exp(p)
np.exp(1j * p)
cmath.exp(1j * p)
math.cos(p) + 1j * math.sin(p)
np.cos(v.real)
math.log(p)
np.log(p)
abs(2j * p * x * x.conjugate())
abs(x * y / p)
abs(q) ** 2
np.linalg.norm(A)
np.linalg.inv(A)
np.linalg.det(A)
np.linalg.inv(A) @ A
np.linalg.inv(np.eye(3) * 2)
np.linalg.multi_dot([A, B, v])
np.linalg.matrix_power(A, 3)
np.linalg.svd(np.diag([3., 2., 1.]))[1]
np.linalg.eigvalsh(np.diag([3., 2., 1.]))
A.dtype.name
A.real.dtype.kind
np.zeros(3, dtype=A.dtype) + v
np.zeros(A.shape, A.dtype) + A
np.asarray(A, dtype=complex).dtype == np.dtype(complex)
np.result_type(A, 1.0) == complex
A.astype(A.dtype)
isub(A.copy(), 1j)
idiv(A.copy(), p)
np.einsum('...i,...i->...', A, B)
np.einsum('...', A)
np.einsum('i...->...', F)
np.matmul(F, A)
np.matmul(v, T)
np.round(A, 20) * 0
1 / (p + 2) * (p + 2)
(p ** 2 + p * 3) / (p + 3) / p
math.sqrt(p * p + 2 * p) ** 2
np.vectorize(lambda a, b: a * b)(A, v)
np.vectorize(lambda a: a.conjugate(), otypes=[complex])(A)
np.frompyfunc(lambda a: a * 2, 1, 1)(A).astype(complex)
np.ndarray.conj(A) if False else A.conj()
np.add.reduce(A)
np.add.reduce(A, axis=1)
np.multiply.reduce(v)
np.cumsum(v)
np.diff(v)
np.mean(A)
A.mean()
A.mean(axis=0)
np.average(v)
np.ravel(A)
np.block([[A, B], [B, A]])
np.apply_along_axis(lambda r: r * 2, 0, A)
np.fromiter((a for a in [1., 2.]), dtype=float) * x
np.fromfunction(lambda i, j: i + j, (2, 2)) * x
np.tri(3) * A
np.asarray([A[i] for i in range(3)])
np.array([A, B]).sum(axis=0)
sum([A, B])
functools.reduce(np.dot, [A, B, v])
functools.reduce(operator.matmul, [A, B, v])
type(A.T) is np.ndarray
isinstance(A, np.ndarray)
isinstance(A[0, 0], complex)
isinstance(A[0], np.ndarray)
isinstance(x, (int, float, complex))
isinstance(p, (int, float))
isinstance(x, numbers.Number)
isinstance(np.float64(1.), float)
type(x) in (float, complex)
type(x) == complex
type({}) is dict
type('a') is str
isinstance(int, type)
{A[0, 0].real: 1} is not None
np.shape(x)
np.ndim(A)
np.iscomplexobj(A)
np.iscomplexobj(A.real)
hasattr(x, 'imag')
len(A)
A.size
A.flatten()[4]
A.flat[4]
[a for a in A.flat][3]
list(map(complex, v))
dict(zip('abc', v))
x.real.imag
x.conjugate().conjugate()
'''


def setit(a, i, v):
    a[i] = v
    return a


def put(a):
    a.real = 0
    return a


def iadd(a, b):
    a += b
    return a


def isub(a, b):
    a -= b
    return a


def idiv(a, b):
    a /= b
    return a


def imul(a, b):
    a *= b
    return a


def main():
    sA, cA = arr('A', (3, 3)); sB, cB = arr('B', (3, 3)); sT, cT = arr('T', (3, 3, 3)); sF, cF = arr('F', (3, 3, 3, 3))
    sv, cv = arr('v', (3,)); sw, cw = arr('w', (3,)); sx, cx = cplx('x'); sy, cy = cplx('y'); sp, cp = real('p', 0.); sq, cq = real('q')
    import numbers
    pkg = loader.SymPackage()
    common = dict(functools=functools, itertools=itertools, operator=operator, copy=copy, numbers=numbers, setit=setit, iadd=iadd,
                  imul=imul, put=put, isub=isub, idiv=idiv)
    senv = dict(common, np=pkg.stubs['numpy'], math=pkg.stubs['math'], cmath=pkg.stubs['cmath'], A=sA, B=sB, T=sT, F=sF, v=sv, w=sw,
                x=sx, y=sy, p=sp, q=sq, __builtins__=pkg.builtins)
    cenv = dict(common, np=rnp, math=math, cmath=cmath, A=cA, B=cB, T=cT, F=cF, v=cv, w=cw, x=cx, y=cy, p=cp, q=cq)

    def fd(env):
        def filldiag(a, b):
            env['np'].fill_diagonal(a, b)
            return a
        return filldiag
    senv['filldiag'], cenv['filldiag'] = fd(senv), fd(cenv)
    from symx import explore
    bad = [0, 0]
    for src in CASES.strip().split('\n'):
        want = eval(src, cenv)

        def run(path):
            return eval(src, senv)
        try:
            outs = []
            for path, r, stats in explore.explore(run, max_paths=40, max_seconds=20):
                outs.append(ev(r))
            ok = any(same(o, want) for o in outs)
            if not ok:
                print('WRONG      ', src, outs[:1], want)
                bad[0] += 1
        except Unsupported as e:
            print('UNSUPPORTED', src, '|', e)
            bad[1] += 1
        except Exception as e:
            print('RAISED     ', src, '|', type(e).__name__, e)
            bad[0] += 1
    print('%d cases, %d wrong, %d unsupported' % (len(CASES.strip().split('\n')), *bad))
    return bad[0]


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
