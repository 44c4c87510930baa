"""Harness runner: symbolic exploration, solver queries, replay, evidence."""
import argparse
import multiprocessing.connection
import hashlib
import json
import os
import random
import re
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import symx                                    # noqa
from symx import core, solve, explore, loader, slices  # noqa
from symx.core import Sym, SymBool, Poison, Unsupported, snot
from symx.fp import FNum, FStr, mark_finite
import z3

REPO = loader.REPO
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)


class Skip(BaseException):
    """assumption violated in a concrete run"""


SYM_CPU, CONC_CPU = 240, 40      # seconds of processor time for one path / one replay


class CheckFailed(Exception):
    pass


class Hang(BaseException):
    """the code under test does not come to an end"""


class cpu_limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        import signal
        import threading
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            def stop(*a):
                raise Hang()
            self.old = signal.signal(signal.SIGPROF, stop)
            signal.setitimer(signal.ITIMER_PROF, self.seconds)

    def __exit__(self, *a):
        import signal
        if self.on:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, self.old)


def _h(name, salt):
    d = hashlib.sha256(('%s|%s' % (salt, name)).encode()).digest()
    return int.from_bytes(d[:7], 'big') / float(1 << 56)


class Env:
    """what a harness sees; `sym` tells the mode but harnesses should not care"""

    def __init__(self, cfg=None):
        self.cfg = cfg or {}
        self.inputs = {}
        self.eqs = []
        self.truths = []
        self.notes = {}
        self.rel = 1e-6
        self.abs = 0.0

    # obligations
    def eq(self, label, got, want):
        self.eqs.append((label, got, want))

    def true(self, label, cond):
        self.truths.append((label, cond))

    def eqdict(self, label, got, want, missing=0):
        """dictionaries equal, absent key == `missing`"""
        for k in sorted(set(got) | set(want), key=str):
            self.eq('%s[%s]' % (label, k), got.get(k, missing), want.get(k, missing))

    def same_keys(self, label, got, want):
        got, want = set(got), set(want)
        self.true('%s: missing keys %s' % (label, sorted(map(str, want - got))[:4])
                  if want - got else label + ': no missing keys', not (want - got))
        self.true('%s: unexpected keys %s' % (label, sorted(map(str, got - want))[:4])
                  if got - want else label + ': no unexpected keys', not (got - want))

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            self.true(label, True)
            return
        except (Unsupported, Skip):
            raise
        except Exception as e:
            self.true('%s: raised %s instead' % (label, type(e).__name__), False)
            return
        self.true(label + ': nothing raised', False)


class SymEnv(Env):
    sym = True

    def num(self, text, digits=6):
        """number written as text (with at least `digits` digits after the point)"""
        f = core.formatted(text) if isinstance(text, str) else None
        if f is None:
            return ConcEnv.num(self, text)
        return f[0] if int(re.match(r'.*?\.?(\d*)[eEfFgG]$', f[1]).group(1) or 6) >= digits else core.Poison()

    def __init__(self, path, cfg=None, pkg_args=None):
        super().__init__(cfg)
        self.path = path
        self.pkg_args = pkg_args or {}
        self._W = None
        self.pkg = None

    @property
    def W(self):
        if self._W is None:
            self.pkg = loader.SymPackage(**self.pkg_args)
            self._W = self.pkg.load('wcxf')
        return self._W

    def module(self, name):
        self.W
        return self.pkg.load(name)

    def fresh_package(self):
        """a second independent instance (fresh process)"""
        self.last_pkg = loader.SymPackage(**self.pkg_args)
        return self.last_pkg.load('wcxf')

    def cplx(self, name, lo=-1.0, hi=1.0):
        a = core.TABLE.get(('in', name), name, 'cplx', lo, hi)
        self.inputs[name] = ('num', a)
        return Sym.atom(a)

    def real(self, name, lo=-1.0, hi=1.0):
        kind = 'pos' if lo is not None and lo >= 0 else 'real'
        a = core.TABLE.get(('in', name), name, kind, lo, hi)
        self.inputs[name] = ('num', a)
        return Sym.atom(a)

    def free_real(self, name):
        a = core.TABLE.get(('in', name), name, 'real', None, None)
        self.inputs[name] = ('num', a)
        return Sym.atom(a)

    def fp(self, name, finite=True):
        v = z3.FP(name, z3.Float64())
        self.inputs[name] = ('fp', v)
        if finite:
            mark_finite(v)
            self.assume(SymBool('z3', z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))))
        return FNum('float', v, name=name)

    def fp_complex(self, name, np=False):
        a, b = self.fp(name + '.re'), self.fp(name + '.im')
        return FNum('complex', a.re, b.re, name=name, np=np)

    def fp_np(self, name):
        a = self.fp(name)
        a.np = True
        return a

    def fp_int(self, name):
        v = z3.FP(name, z3.Float64())
        self.inputs[name] = ('fpint', v)
        mark_finite(v)
        self.assume(SymBool('z3', z3.And(
            z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))),
            z3.fpEQ(z3.fpRoundToIntegral(z3.RNE(), v), v), z3.Not(z3.And(
                z3.fpIsZero(v), z3.fpIsNegative(v))))))
        return FNum('int', v, name=name)

    def fp_str(self, name):
        v = z3.FP(name, z3.Float64())
        self.inputs[name] = ('fpstr', v)
        mark_finite(v)
        self.assume(SymBool('z3', z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))))
        return FStr(FNum('float', v, name=name))

    def flag(self, name):
        self.inputs[name] = ('bool', name)
        return bool(core.boolvar(name))

    def choice(self, name, n):
        """symbolic index 0..n-1, decided by the explorer"""
        for i in range(n - 1):
            if self.flag('%s=%d' % (name, i)):
                return i
        return n - 1

    def assume(self, c):
        self.path.assume(c)


class ConcEnv(Env):
    """replay against the genuine, unpatched package"""
    sym = False

    def __init__(self, values, cfg=None, salt=0, pkg_args=None):
        super().__init__(cfg)
        self.values = values
        self.salt = salt
        self.used = {}
        self._W = None

    @property
    def W(self):
        if self._W is None:
            self._W = self.fresh_package()
        return self._W

    def fresh_package(self):
        for k in [k for k in sys.modules if k == 'wcxf' or k.startswith('wcxf.')]:
            del sys.modules[k]
        import importlib
        return importlib.import_module('wcxf')

    def module(self, name):
        import importlib
        self.W
        return importlib.import_module(name)

    def _get(self, name, gen):
        v = self.values.get(name)
        if v is None:
            v = gen()
        if isinstance(v, dict):
            v = complex(v['re'], v['im'])
        self.used[name] = v
        return v

    def cplx(self, name, lo=-1.0, hi=1.0):
        return complex(self._get(name, lambda: complex(
            lo + (hi - lo) * _h(name + 're', self.salt), lo + (hi - lo) * _h(name + 'im', self.salt))))

    def real(self, name, lo=-1.0, hi=1.0):
        v = self._get(name, lambda: lo + (hi - lo) * _h(name, self.salt))
        return float(v.real)

    def free_real(self, name):
        v = self._get(name, lambda: -3 + 6 * _h(name, self.salt))
        return float(v.real)

    def fp(self, name, finite=True):
        return float(self._get(name, lambda: -1 + 2 * _h(name, self.salt)))

    def fp_complex(self, name, np=False):
        v = complex(self.fp(name + '.re'), self.fp(name + '.im'))
        if np:
            import numpy
            v = numpy.complex128(v)
        return v

    def fp_np(self, name):
        import numpy
        return numpy.float64(self.fp(name))

    def fp_int(self, name):
        return int(self._get(name, lambda: 3))

    def fp_str(self, name):
        return repr(float(self._get(name, lambda: -1 + 2 * _h(name, self.salt))))

    def flag(self, name):
        return bool(self._get(name, lambda: False))

    def choice(self, name, n):
        for i in range(n - 1):
            if self.flag('%s=%d' % (name, i)):
                return i
        return n - 1

    def assume(self, c):
        if not c:
            raise Skip()

    def num(self, text, digits=6):
        if not isinstance(text, str):
            return text
        try:
            return float(text)
        except ValueError:
            return complex('nan')

    # ------------------------------------------------ verdict of a concrete run
    def failures(self):
        bad = []
        for label, got, want in self.eqs:
            if not self._close(got, want):
                bad.append((label, repr(got), repr(want)))
        for label, c in self.truths:
            if not c:
                bad.append((label, 'False', 'True'))
        return bad

    def _close(self, a, b):
        import numpy as np
        try:
            if np.ndim(a) or np.ndim(b):
                if np.shape(a) != np.shape(b):
                    return False
                return all(self._close(x, y) for x, y in zip(np.ravel(a), np.ravel(b)))
            a, b = complex(a), complex(b)
        except (TypeError, ValueError):
            return a == b
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        return abs(a - b) <= self.rel * max(abs(a), abs(b)) + self.abs


class Harness:
    def __init__(self, fn, name=None, levels=({},), max_paths=200, max_seconds=200,
                 pkg_args=None, replay=None, tier='quick', rel=1e-6, abs_=0.0, doc=''):
        self.fn = fn
        self.name = name or fn.__name__
        self.levels = list(levels)
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.pkg_args = pkg_args
        self.tier = tier
        self.rel, self.abs = rel, abs_
        self.doc = doc or (fn.__doc__ or '').strip()


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, label, info):
        super().__init__(label)
        self.label, self.info = label, info


# ---------------------------------------------------------------- concrete run
def conc_run(h, values, cfg, salt=0):
    env = ConcEnv(values, cfg, salt)
    env.rel, env.abs = h.rel, h.abs
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with cpu_limit(CONC_CPU):
                h.fn(env)
    except Skip:
        return env, None
    except Hang:
        return env, [('does not come to an end', '%d s of processor time' % CONC_CPU, 'an end')]
    except Unsupported:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb][-3:]
        return env, [('raised %s: %s' % (type(e).__name__, str(e)[:200]), ' | '.join(where), 'no exception')]
    return env, env.failures()


# ---------------------------------------------------------------- symbolic run
def _profiled(fn, seen):
    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if c.co_filename.startswith(REPO):
                seen.add('%s:%s' % (os.path.relpath(c.co_filename, REPO), c.co_qualname))
    sys.setprofile(prof)
    try:
        return fn()
    finally:
        sys.setprofile(None)


def model_inputs(model, enc, env):
    vals = {}
    for name, (k, a) in env.inputs.items():
        if k == 'num':
            if a.id in enc.vars:
                v = solve.model_value(model, enc, a)
                vals[name] = v
        elif k in ('fp', 'fpint', 'fpstr'):
            v = model.eval(a, model_completion=True)
            vals[name] = fp_value(v)
        elif k == 'bool':
            v = model.eval(z3.Bool('b!' + a), model_completion=False)
            if z3.is_true(v) or z3.is_false(v):
                vals[name] = z3.is_true(v)
    return vals


def fp_value(v):
    if z3.is_fp(v) and v.isNaN():
        return float('nan')
    if v.isInf():
        return float('-inf') if v.isNegative() else float('inf')
    if v.isZero():
        return -0.0 if v.isNegative() else 0.0
    s = -1.0 if v.sign() else 1.0
    return s * float(v.significand_as_long() / 2.0 ** 52 + (0 if v.isSubnormal() else 1)) * 2.0 ** (
        v.exponent_as_long(False))


def by_parts(constraints, path, env):
    """models of the independent parts of the constraints put together"""
    sl = slices.Slices()
    for c in constraints:
        sl.add(c)
    vals, t0 = {}, time.time()
    for part in sl.parts():
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*part)
        r = solve.timed_check(s)
        if r == z3.unsat:
            return r, None
        if r != z3.sat or time.time() - t0 > 60:
            return z3.unknown, None
        m = s.model()
        have = {d.name() for d in m.decls()}
        for name, v in model_inputs(m, path.enc, env).items():
            k, a = env.inputs[name]
            syms = set()
            if k == 'num':
                syms = {x.decl().name() for x in path.enc.vars[a.id] if x is not None and z3.is_const(x)}
            elif k == 'bool':
                syms = {'b!' + a}
            else:
                syms = {a.decl().name()}
            if syms & have:
                vals[name] = v
    return z3.sat, vals


def candidates(path, env, goal=None, seed=0):
    """counterexample input assignments: z3 models of path condition (and goal)"""
    s = z3.Solver()
    s.set('timeout', 20000)
    for c in path.solver.assertions():
        s.add(c)
    cands = []
    goals = goal if isinstance(goal, list) else [goal]
    for g in goals:
        s.push()
        if g is not None:
            s.add(g)
        for x in path.enc.side[path.nside:]:
            s.add(x)
        r = solve.timed_check(s)
        if r == z3.sat:
            m = model_inputs(s.model(), path.enc, env)
            cands.append(m)
        elif r == z3.unsat:
            s.pop()
            return 'unsat', []
        else:
            r, m = by_parts(s.assertions(), path, env)
            if r == z3.unsat:
                return 'unsat', []
            if m:
                cands.append(m)
        s.pop()
    return 'sat' if cands else 'unknown', cands


class Result:
    def __init__(self):
        self.paths = 0
        self.complete = True
        self.eqs = 0
        self.truths = 0
        self.functions = set()
        self.samples = []
        self.level = None
        self.inputs = 0
        self.inconclusive = []
        self.violation = None
        self.known = []


def run_level(h, cfg, res, seed, known, tier, deadline):
    core.reset_atoms()
    first = [True]

    def run(path):
        env = SymEnv(path, cfg, h.pkg_args)
        err = None

        def go():
            with cpu_limit(SYM_CPU):
                h.fn(env)
        try:
            if first[0]:
                first[0] = False
                _profiled(go, res.functions)
            else:
                go()
        except (Unsupported, explore.Prune):
            raise
        except (Exception, Hang) as e:
            err = e
            tb = traceback.extract_tb(e.__traceback__)
            env.err_where = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb][-4:]
        env.err = err
        return env

    maxs = min(h.max_seconds * (4 if tier == 'thorough' else 1), max(10, deadline - time.time()))
    maxp = h.max_paths * (8 if tier == 'thorough' else 1)
    gen = explore.explore(run, max_paths=maxp, max_seconds=maxs)
    for path, env, stats in gen:
        res.eqs += len(env.eqs)
        res.truths += len(env.truths)
        res.inputs = max(res.inputs, len(env.inputs))
        if len(res.samples) < 6 and env.eqs:
            lab, l, r = env.eqs[(7 * len(res.samples) + seed) % len(env.eqs)]
            res.samples.append('%s: %s == %s' % (lab, core.show(l, 160) if isinstance(l, Sym) else repr(l)[:160],
                                                 core.show(r, 160) if isinstance(r, Sym) else repr(r)[:160]))
        elif len(res.samples) < 6 and env.truths:
            res.samples.append('%s: %s' % (env.truths[-1][0], str(env.truths[-1][1])[:100]))
        examine(h, cfg, path, env, res, seed, known, tier)
    res.paths += explore.explore.last.get('paths', 0)
    if not explore.explore.last.get('complete', True):
        res.complete = False
    if explore.explore.last.get('paths', 0) == explore.explore.last.get('pruned', 0):
        raise Inconclusive('vacuous: every path pruned')


def flatten(eqs):
    import numpy as np
    from symx.arrays import PartView
    out = []
    for label, l, r in eqs:
        if isinstance(l, PartView):
            l = l.__symarray__()
        if isinstance(r, PartView):
            r = r.__symarray__()
        if isinstance(l, np.ndarray) and l.ndim or isinstance(r, np.ndarray) and r.ndim:
            if np.shape(l) != np.shape(r):
                out.append((label + ' shape', 0, 1))
                continue
            for i in np.ndindex(*np.shape(l)):
                out.append(('%s%s' % (label, list(i)), np.asarray(l)[i], np.asarray(r)[i]))
        else:
            out.append((label, l, r))
    return out


def isnumlike(x):
    import numpy as np
    return isinstance(x, (int, float, complex, Sym, Poison, np.number)) or (
        isinstance(x, np.ndarray) and x.ndim == 0)


def examine(h, cfg, path, env, res, seed, known, tier):
    """decide all obligations of one path"""
    if env.err is not None:
        label = 'raised %s: %s' % (type(env.err).__name__, str(env.err)[:160])
        confirm(h, cfg, path, env, res, seed, known, [(label, None)],
                extra=' | '.join(env.err_where))
        return
    num, fps, other = [], [], []
    for label, l, r in flatten(env.eqs):
        if isinstance(l, FNum) or isinstance(r, FNum):
            fps.append((label, l, r))
        elif isnumlike(l) and isnumlike(r):
            num.append((label, l, r))
        else:
            other.append((label, l, r))
    goals = []
    if num:
        bad = solve.check_relaxed(num)
        if tier == 'thorough' and not bad:
            bad = full_check(num)
        for label, l, r in bad[:60]:
            kept, noise, scale = solve.diff(l, r)
            if kept is None:
                goals.append((label, z3.BoolVal(True)))
                continue
            try:
                re, im = path.enc.poly(Sym(kept))
                path._sync()
                d = solve.rat(1e-6)
                lr, li = path.enc.poly(solve.bterm(l))
                rr, ri = path.enc.poly(solve.bterm(r))
                path._sync()
                big = z3.Or(re > d, re < -d, im > d, im < -d)
                any_ = z3.Or(re != 0, im != 0)
                goals.append((label, [big, any_]))
            except Unsupported:
                goals.append((label, z3.BoolVal(True)))
    for label, l, r in fps:
        l, r = FNum.lift(l), FNum.lift(r)
        if l is None or r is None:
            goals.append((label, z3.BoolVal(True)))
            continue
        if l is None or r is None:
            goals.append((label, z3.BoolVal(True)))
            continue
        g = z3.Not(z3.And(z3.fpEQ(l.re, r.re), z3.fpEQ(l.im, r.im)))
        solve.STATS['obligations'] += 1
        s = path.solver
        s.push()
        s.set('timeout', 60000)
        s.add(g)
        q = solve.timed_check(s)
        s.pop()
        if q != z3.unsat:
            goals.append((label, g))
    for label, l, r in other:
        solve.STATS['obligations'] += 1
        e = (l == r)
        if isinstance(e, SymBool):
            env.truths.append((label, e))
        elif not e:
            goals.append((label, z3.BoolVal(True)))
    for label, c in env.truths:
        solve.STATS['obligations'] += 1
        if isinstance(c, SymBool):
            g = z3.Not(path.enc.cond(c))
            path._sync()
            if path._check(g) != z3.unsat:
                goals.append((label, g))
        else:
            # concrete verdict on this path: violated iff the path is feasible
            s = path.solver
            if not c:
                goals.append((label, z3.BoolVal(True)))
            else:
                s.push()
                s.add(z3.BoolVal(False))
                solve.timed_check(s)
                s.pop()
    if goals:
        confirm(h, cfg, path, env, res, seed, known, goals)


def full_check(num):
    """thorough: post both sides unsimplified, in chunks, to z3"""
    bad = []
    chunk, n = [], 0
    for o in num:
        t = len(solve.bterm(o[1]).t if not isinstance(solve.bterm(o[1]), Poison) else ())
        chunk.append(o)
        n += t
        if n > 4000:
            bad += solve.check_relaxed(chunk, full=True)
            chunk, n = [], 0
    if chunk:
        bad += solve.check_relaxed(chunk, full=True)
    return bad


def confirm(h, cfg, path, env, res, seed, known, goals, extra=''):
    """replay candidate counterexamples against the genuine package"""
    tried = 0
    all_unsat = True
    seen_keys = set()
    t0 = time.time()
    for w in path.wit[:2]:
        # points known to take this path, before the solver is asked for one
        cenv, fails = conc_run(h, dict(w.inputs(env), **flags_of(path)), cfg, 0)
        new = [f for f in fails or [] if not any(is_known(k, h.name, f[0]) for k in known)]
        if new:
            raise Violation(new[0][0], {'harness': h.name, 'cfg': cfg, 'salt': 0, 'values': jsonable(cenv.used),
                                        'failures': new[:10], 'solver_label': goals[0][0]})
    for label, g in goals:
        if time.time() - t0 > 120:
            break
        status, cands = candidates(path, env, g, seed)
        if status == 'unsat':
            continue
        all_unsat = False
        trial = []
        for c in cands:
            trial.append((c, 0))
            trial.append((c, seed + 1))
        if tried < 3:
            flags = {k: v for c in cands[:1] for k, v in c.items() if isinstance(v, bool)}
            for i in range(3):
                trial.append((flags, seed + 11 + i))
        for values, salt in trial:
            tried += 1
            cenv, fails = conc_run(h, values, cfg, salt)
            if fails:
                new = [f for f in fails if not any(is_known(k, h.name, f[0]) for k in known)]
                kn = [f for f in fails if f not in new]
                for f in kn:
                    if f[0] not in res.known:
                        res.known.append(f[0])
                if new:
                    raise Violation(new[0][0], {
                        'harness': h.name, 'cfg': cfg, 'salt': salt,
                        'values': jsonable(cenv.used), 'failures': new[:10],
                        'solver_label': label})
                if kn:
                    break
        if len(seen_keys) > 40:
            break
    if all_unsat:
        return
    # known findings only?
    left = [l for l, g in goals if not any(is_known(k, h.name, l) for k in known)]
    if left and not res.known:
        res.inconclusive.append((h.name, left[:5], extra))


def flags_of(path):
    """values of the boolean inputs on a path"""
    out = {}

    def put(c, v):
        if c.op == 'not':
            put(c.a, not v)
        elif c.op == 'var':
            out[c.a] = v
    for c, v, z in path.pc:
        if isinstance(c, SymBool):
            put(c, v)
    return out


def is_known(k, hname, label):
    import re
    return k.get('harness') in (None, hname) and re.search(k['label'], label) is not None


def jsonable(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, complex):
            out[k] = {'re': v.real, 'im': v.imag}
        else:
            out[k] = v
    return out


def one_harness(h, seed, known, tier, deadline, verbose=False):
    """decide one harness (runs in a forked child): plain data only in the result"""
    th = time.time()
    for k in solve.STATS:
        solve.STATS[k] = 0
    res, why, violation, done, functions = None, [], None, False, set()
    for li, cfg in enumerate(h.levels):
        res = Result()
        try:
            run_level(h, cfg, res, seed, known, tier, deadline)
            res.level = cfg
        except Violation as v:
            violation = v
            res.violation = v.label
        except (Unsupported, Inconclusive) as e:
            why.append('%s at %s: %s' % (type(e).__name__, cfg, e))
            if verbose:
                traceback.print_exc()
            functions |= res.functions
            continue
        functions |= res.functions
        if violation:
            break
        if res.inconclusive:
            why.append(str(res.inconclusive[:3]))
            continue
        done = True
        break
    if done and not violation and res.eqs + res.truths == 0:
        done = False
        why.append('vacuous: no obligation reached')
    if not done and not violation:
        violation = fallback(h, seed, known)
    return {'report': {'harness': h.name, 'what': h.doc, 'level': str(res.level), 'paths': res.paths,
                       'all_paths_explored': res.complete, 'symbolic_inputs': res.inputs,
                       'equalities': res.eqs, 'assertions': res.truths, 'wall_s': round(time.time() - th, 2),
                       'samples': res.samples[:2]},
            'stats': dict(solve.STATS), 'functions': functions, 'known': list(res.known),
            'violation': (violation.label, violation.info) if violation else None,
            'incon': None if done or violation else (why or ['inconclusive'])}


def fallback(h, seed, known):
    """the solver gave no verdict: look for a concrete counterexample in the genuine code (a failing replay is a
    violation; passing replays decide nothing and the check stays inconclusive)"""
    cfg = h.levels[-1]
    t0 = time.time()
    names = []
    for salt in range(40):
        if time.time() - t0 > 60:
            break
        rnd = random.Random('%s %s %s' % (h.name, seed, salt))
        values = {k: rnd.random() < 0.5 for k in names} if salt else {}
        try:
            env, fails = conc_run(h, values, cfg, seed + 101 + salt)
        except Unsupported:
            return None
        names = sorted(set(names) | {k for k, v in env.used.items() if isinstance(v, bool)})
        new = [f for f in fails or [] if not any(is_known(k, h.name, f[0]) for k in known)]
        if new:
            return Violation(new[0][0], {'harness': h.name, 'cfg': cfg, 'salt': seed + 101 + salt,
                                         'values': jsonable(env.used), 'failures': new[:10],
                                         'solver_label': 'no solver verdict; concrete counterexample'})
    return None


def parallel(todo, fn, jobs):
    """run fn over the harnesses in forked children; results in order, stops starting new ones after a violation"""
    import multiprocessing as mp
    if jobs <= 1 or len(todo) <= 1:
        out = []
        for h in todo:
            out.append(fn(h))
            if out[-1]['violation']:
                break
        return out
    ctx = mp.get_context('fork')
    results, running, nxt, stop = {}, {}, 0, False
    while (nxt < len(todo) and not stop) or running:
        while nxt < len(todo) and len(running) < jobs and not stop:
            r, w = ctx.Pipe(False)

            def child(h=todo[nxt], w=w):
                try:
                    w.send(fn(h))
                except BaseException as e:
                    w.send({'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()})
                w.close()
            p = ctx.Process(target=child)
            p.start()
            w.close()
            running[nxt] = (p, r)
            nxt += 1
        ready = mp.connection.wait([r for p, r in running.values()])
        for i, (p, r) in list(running.items()):
            if r in ready:
                try:
                    results[i] = r.recv()
                except EOFError:
                    results[i] = {'error': 'worker died'}
                p.join()
                del running[i]
                if results[i].get('violation'):
                    stop = True
    out = []
    for i in sorted(results):
        x = results[i]
        if 'error' in x:
            print(x.get('trace', ''), file=sys.stderr)
            x = {'report': {'harness': todo[i].name, 'what': todo[i].doc, 'level': 'None', 'paths': 0, 'all_paths_explored': False,
                            'symbolic_inputs': 0, 'equalities': 0, 'assertions': 0, 'wall_s': 0, 'samples': []},
                 'stats': {}, 'functions': set(), 'known': [], 'violation': None, 'incon': [x['error']]}
        out.append(x)
    return out


# ---------------------------------------------------------------- main driver
def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if k.get('property') == prop]


def main(prop, harnesses, assumptions, bounds, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '6')))
    args = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        h = [x for x in harnesses if x.name == r['harness']][0]
        env, fails = conc_run(h, r['values'], r['cfg'], r['salt'])
        for f in fails or []:
            print('FAIL', f)
        return 1 if fails else 0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    t0 = time.time()
    deadline = t0 + (780 if tier == 'quick' else 3000)
    known = load_known(prop)
    reports = []
    violation = None
    incon = []
    functions = set()
    allknown = []
    todo = [h for h in harnesses if (not args.only or h.name == args.only)
            and (h.tier != 'thorough' or tier == 'thorough' or args.only)]
    for out in parallel(todo, lambda h: one_harness(h, seed, known, tier, deadline, args.v), args.jobs):
        for k, v in out['stats'].items():
            solve.STATS[k] = solve.STATS.get(k, 0) + v
        functions |= out['functions']
        allknown += [k for k in out['known'] if k not in allknown]
        reports.append(out['report'])
        if args.v:
            print(json.dumps(reports[-1], indent=1), file=sys.stderr)
        if out['violation']:
            violation = violation or Violation(*out['violation'])
        elif out['incon']:
            incon.append((out['report']['harness'], out['incon']))
    st = solve.STATS
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the repository source (regenerated on this run); '
                           'obligations decided by z3. ' + bounds,
            'functions_encoded': sorted(functions),
            'harnesses': reports,
            'obligations': st['obligations'], 'solver_queries': st['queries'],
            'solver_unsat': st['unsat'], 'solver_sat': st['sat'], 'solver_unknown': st['unknown'],
            'solver_time_s': round(st['time'], 3), 'terms': st['terms'],
            'paths': sum(r['paths'] for r in reports),
            'bounds': bounds,
            'samples': [s for r in reports for s in r['samples']][:8],
            'inconclusive': [str(x) for x in incon],
            'known_findings': allknown,
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in allknown:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violation:
        rp = os.path.join(HERE, 'evidence', '%s-replay.json' % prop)
        with open(rp, 'w') as f:
            json.dump(violation.info, f, indent=1, default=str)
        print('counterexample (harness %s): %s' % (violation.info['harness'], violation.info['failures'][:3]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if incon:
        print('INCONCLUSIVE property=%s %s' % (prop, incon))
        return 2
    print('OK property=%s harnesses=%d obligations=%d queries=%d paths=%d solver_time=%.2fs wall=%.1fs' % (
        prop, len(reports), st['obligations'], st['queries'], ev['coverage']['paths'], st['time'], ev['wall_s']))
    return 0
