"""Load the wcxf package from /repo's working tree for symbolic execution.

The source files are read and compiled afresh in every process.  Each module is
executed with patched builtins; its imports of numpy, math, rundec, ckmutil
(and whatever a harness asks for) resolve to symbolic stand-ins.  Nothing is
entered in sys.modules, so the genuine package can be imported alongside."""
import ast
import builtins
import os
import re
import sys
import types
from . import arrays, patched, fp
from .core import Sym, uf, Unsupported, lift
from .arrays import mk, tosym

REPO = os.environ.get('WCXF_REPO', '/repo')
_CODE = {}


def _source_code(path):
    path = os.path.realpath(path)
    if path not in _CODE:
        with open(path, 'rb') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = _Percent().visit(ast.parse(src, path))
            _CODE[path] = compile(ast.fix_missing_locations(tree), path, 'exec')
    return _CODE[path]


class _Percent(ast.NodeTransformer):
    """`a % b` calls a helper, so that 'fmt' % symbolic can be followed (the
    interpreter's string formatting insists on genuine floats)."""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not isinstance(n.op, ast.Mod):
            return n
        return ast.copy_location(ast.Call(
            ast.Name('__vp_percent__', ast.Load()), [n.left, n.right], []), n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if not isinstance(n.op, ast.Mod) or not isinstance(n.target, ast.Name):
            return n
        return ast.copy_location(ast.Assign([n.target], ast.copy_location(ast.Call(
            ast.Name('__vp_percent__', ast.Load()),
            [ast.Name(n.target.id, ast.Load()), n.value], []), n)), n)


_CONV = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-#0 +]*)(?P<width>\d+|\*)?'
                   r'(?:\.(?P<prec>\d+|\*))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])')


def _symbolic(x):
    return isinstance(x, (Sym, fp.FNum)) or type(x).__module__.startswith('symx.')


def percent(left, right):
    if not isinstance(left, str):
        return left % right
    vals = (list(right.values()) if isinstance(right, dict) else
            list(right) if isinstance(right, tuple) else [right])
    if not any(_symbolic(v) for v in vals):
        return left % right
    pos = iter(vals)

    def sub(m):
        if m['conv'] == '%':
            return '%'
        if '*' in (m['width'], m['prec']):
            raise Unsupported('* in a format string with symbolic values')
        v = right[m['key']] if m['key'] is not None else next(pos)
        if not _symbolic(v):
            txt = '%' + m['flags'] + (m['width'] or '') + \
                ('.' + m['prec'] if m['prec'] is not None else '') + m['conv']
            return txt % (v,)
        if m['conv'] in 'sra':
            return format(v, '') if m['conv'] == 's' else repr(v)
        if m['conv'] in 'eEfFgG':
            return format(v, ('.' + m['prec'] if m['prec'] is not None else '.6') + m['conv'])
        raise Unsupported('%%%s of a symbolic value' % m['conv'])
    return _CONV.sub(sub, left)


def hassym(args):
    return any(isinstance(a, Sym) and not a.is_const() for a in args)


def _plain(a):
    if isinstance(a, Sym):
        c = a.constval()
        return c.real if c.imag == 0 else c
    return a


# ------------------------------------------------------------------ ckmutil
def make_ckmutil():
    import ckmutil.ckm
    import ckmutil.diag
    pk = types.ModuleType('ckmutil')
    pk.__path__ = []
    ckm = types.ModuleType('ckmutil.ckm')
    dg = types.ModuleType('ckmutil.diag')

    def ckm_tree(Vus, Vub, Vcb, gamma):
        args = (Vus, Vub, Vcb, gamma)
        if not hassym(args):
            return tosym(ckmutil.ckm.ckm_tree(*[_plain(a) for a in args]))
        args = tuple(lift(a) for a in args)
        return mk((3, 3), [uf('V%d%d' % (i + 1, j + 1), args, kind='cplx', lo=-1, hi=1)
                           for i in range(3) for j in range(3)])

    def msvd(m):
        m = tosym(m)
        flat = [lift(x) for x in m.reshape(-1)]
        if not hassym(flat):
            import numpy as np
            return tuple(tosym(x) for x in ckmutil.diag.msvd(
                np.array([complex(_plain(x)) for x in flat]).reshape(3, 3)))
        S = mk((3,), [uf('msvd_S%d' % i, tuple(flat), kind='pos') for i in range(3)])
        U, V = [mk((3, 3), [uf('msvd_%s%d%d' % (n, i, j), tuple(flat), kind='cplx')
                            for i in range(3) for j in range(3)]) for n in 'UV']
        return U, S, V

    def mtakfac(m):
        m = tosym(m)
        flat = [lift(x) for x in m.reshape(-1)]
        if not hassym(flat):
            import numpy as np
            return tuple(tosym(x) for x in ckmutil.diag.mtakfac(
                np.array([complex(_plain(x)) for x in flat]).reshape(3, 3)))
        U = mk((3, 3), [uf('mtakfac_U%d%d' % (i, j), tuple(flat), kind='cplx')
                        for i in range(3) for j in range(3)])
        return U, msvd(m)[1]

    def fallback(mod):
        def g(n):
            f = getattr(mod, n)
            if callable(f):
                def h(*a, **k):
                    if hassym(a):
                        raise Unsupported('%s.%s on symbolic values' % (mod.__name__, n))
                    return f(*a, **k)
                return h
            return f
        return g
    ckm.ckm_tree = ckm_tree
    ckm.__getattr__ = fallback(ckmutil.ckm)
    dg.msvd = msvd
    dg.mtakfac = mtakfac
    dg.__getattr__ = fallback(ckmutil.diag)
    pk.ckm, pk.diag = ckm, dg
    return {'ckmutil': pk, 'ckmutil.ckm': ckm, 'ckmutil.diag': dg}


# ------------------------------------------------------------------ rundec
def make_rundec(identity=False):
    """identity: running from a scale to the same scale returns the input (branches on equality)"""
    import rundec
    mod = types.ModuleType('rundec')

    class _NF:
        def __init__(self):
            self.Mth = self.muth = 0.0
            self.nf = 0

        def key(self):
            return (self.Mth, self.muth, self.nf)

    class CRunDec:
        def __init__(self, *a):
            self.nfMmu = _NF()

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            if not hasattr(rundec.CRunDec, name):
                raise AttributeError(name)

            def f(*args):
                flat = []
                for a in args:
                    if isinstance(a, _NF):
                        flat.extend(a.key())
                    else:
                        flat.append(a)
                if identity and name == 'AlphasExact' and flat[1] == flat[2]:
                    return flat[0]
                if identity and name in ('mMS2mMS',) and flat[1] == flat[2]:
                    return flat[0]
                if hassym(flat):
                    return uf('rundec.' + name, tuple(
                        x if not isinstance(x, (Sym, float, int)) else lift(x) for x in flat),
                        kind='pos')
                crd = rundec.CRunDec()
                out = []
                for a in args:
                    if isinstance(a, _NF):
                        crd.nfMmu.Mth, crd.nfMmu.muth, crd.nfMmu.nf = \
                            _plain(a.Mth), _plain(a.muth), _plain(a.nf)
                        out.append(crd.nfMmu)
                    else:
                        out.append(_plain(a))
                return getattr(crd, name)(*out)
            return f
    mod.CRunDec = CRunDec
    return {'rundec': mod}


class SymPackage:
    def __init__(self, stubs=None, extra_builtins=None, root='wcxf', numeric=True, repo=None):
        self.repo = repo or REPO
        self.root = root
        self.mods = {}
        self.stubs = {}
        if numeric:
            self.stubs['numpy'] = arrays.NumpyProxy()
            self.stubs['math'] = patched.MathProxy()
            self.stubs['cmath'] = patched.CMathProxy()
            self.stubs.update(make_ckmutil())
            self.stubs.update(make_rundec())
            self.stubs.update(fp.io_stubs())
        if stubs:
            self.stubs.update(stubs)
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['__vp_percent__'] = percent
        if numeric:
            b['float'] = patched.Float
            b['complex'] = patched.Complex
            b['int'] = patched.Int
            b['isinstance'] = patched.p_isinstance
            b['type'] = patched.SymType
        if extra_builtins:
            b.update(extra_builtins)
        self.builtins = b

    def _find(self, name):
        rel = name.split('.')
        base = os.path.join(self.repo, *rel)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rpartition('.')[0])
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self._find(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        try:
            exec(_source_code(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            full = '.'.join(parts + ([name] if name else []))
        else:
            full = name
        top = full.split('.')[0]
        if top == self.root:
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f == '*':
                        continue
                    if not hasattr(m, f):
                        p, _ = self._find(full + '.' + f)
                        if p:
                            self.load(full + '.' + f)
                return m
            return self.load(top) if not level else m
        if full in self.stubs or top in self.stubs:
            if full in self.stubs:
                return self.stubs[full] if fromlist or '.' not in full else self.stubs[top]
            if hasattr(self.stubs[top], '__path__') or fromlist:
                real = builtins.__import__(full, globals, locals, fromlist, 0)
                return real if fromlist else self.stubs[top]
            return self.stubs[top]
        return builtins.__import__(name, globals, locals, fromlist, level)
