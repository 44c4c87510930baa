"""WET basis translators: missing coefficients are zero; the translation is additive; only the given names matter."""
import bases
import common
from vp import Harness
from props.wet_common import ASSUME, CHAIN

TR = [('WET', 'JMS', 'flavio'), ('WET', 'JMS', 'Bern'), ('WET', 'JMS', 'EOS'), ('WET', 'JMS', 'formflavor'),
      ('WET', 'Bern', 'flavio'), ('WET', 'flavio', 'Bern'), ('WET-4', 'JMS', 'flavio'), ('WET-4', 'JMS', 'Bern'),
      ('WET-4', 'Bern', 'flavio'), ('WET-4', 'flavio', 'Bern'), ('WET-3', 'JMS', 'flavio'), ('WET-3', 'JMS', 'Bern'),
      ('WET-3', 'Bern', 'flavio'), ('WET-3', 'flavio', 'Bern')]


def groups(eft, b, n):
    names = sorted(bases.keys(eft, b))
    return [names[i::n] for i in range(n)]


def missing(eft, frm, to):
    def run(env):
        W = env.W
        bases.register(W)
        gs = groups(eft, frm, 3)
        par = common.params(env, CHAIN)
        scale = env.real('scale', *common.SCALE)
        f = W.Translator[eft, frm, to].function
        C = {}
        for i, g in enumerate(gs):
            if env.flag('given%d' % i):
                C.update({k: (env.real(k) if bases.keys(eft, frm)[k] else env.cplx(k)) for k in g})
        full = dict.fromkeys(bases.keys(eft, frm), 0)
        full.update(C)
        a = f(dict(C), scale, dict(par))
        b = f(full, scale, dict(par))
        env.same_keys('output', a, b)
        env.eqdict('%s %s -> %s: missing is zero' % (eft, frm, to), a, b)
        if not C:
            env.true('output for an empty input is not empty', len(b) > 0)
            env.eqdict('%s %s -> %s: nothing in, zero out' % (eft, frm, to), a, {})
    run.__doc__ = '%s %s -> %s: any of three groups of coefficients missing or explicitly zero' % (eft, frm, to)
    return Harness(run, 'missing_%s_%s_%s' % (eft.replace('-', ''), frm, to))


def alone(eft, frm, to, size, part, n, tier='quick'):
    """a few coefficients given, all others missing or explicitly zero"""
    def run(env):
        W = env.W
        bases.register(W)
        par = common.params(env, ['Vus', 'alpha_e', 'm_b'])
        f = W.Translator[eft, frm, to].function
        real = bases.keys(eft, frm)
        names = sorted(real)
        m = -(-len(names) // size)
        zeros = dict.fromkeys(names, 0)
        for j in range(part, m, n):
            C = {k: env.real(k) if real[k] else env.cplx(k) for k in names[j::m]}
            a = f(dict(C), 80., dict(par))
            b = f(dict(zeros, **C), 80., dict(par))
            env.same_keys('output', a, b)
            for k in b:
                x, y = a.get(k, 0), b[k]
                if not (x is y or type(x) is type(y) and not hasattr(x, 't') and x == y):
                    env.eq('%s %s -> %s: %s with only %s given' % (eft, frm, to, k, sorted(C)[:3]), x, y)
    run.__doc__ = '%s %s -> %s: %s' % (eft, frm, to, 'each coefficient alone' if size == 1 else 'every set of %d' % size) + \
        ' coefficients alone (part %d of %d)' % (part, n)
    return Harness(run, '%s_%s_%s_%s_%d' % ('alone' if size == 1 else 'few', eft.replace('-', ''), frm, to, part), tier=tier)


def additive(eft, frm, to):
    def run(env):
        W = env.W
        bases.register(W)
        par = common.params(env, CHAIN)
        scale = env.real('scale', *common.SCALE)
        f = W.Translator[eft, frm, to].function
        A = common.wcs(env, eft, frm, tag='a_')
        B = common.wcs(env, eft, frm, tag='b_')
        B = {k: v for i, (k, v) in enumerate(sorted(B.items())) if i % 4}
        r = env.real('r', -2., 2.)
        S = {k: r * v + B.get(k, 0) for k, v in A.items()}
        a, b, s = (f(x, scale, dict(par)) for x in (dict(A), dict(B), S))
        for k in s:
            env.eq('%s %s -> %s: linear in %s' % (eft, frm, to, k), s[k], r * a.get(k, 0) + b.get(k, 0))
        env.same_keys('output', s, a)
    run.__doc__ = '%s %s -> %s: T(r a + b) = r T(a) + T(b) for real r' % (eft, frm, to)
    return Harness(run, 'linear_%s_%s_%s' % (eft.replace('-', ''), frm, to), abs_=1e-12)


def types(frm, to):
    """integers, real and complex numbers are accepted alike"""
    def run(env):
        W = env.W
        bases.register(W)
        f = W.Translator['WET', frm, to].function
        names = sorted(bases.keys('WET', frm))[::7]
        C = {k: [0, 1, -1.0, complex(2, 0)][i % 4] for i, k in enumerate(names)}
        a = f(dict(C), 80., None)
        b = f({k: complex(v) for k, v in C.items()}, 80., None)
        env.eqdict('%s -> %s: number type' % (frm, to), a, b)
    run.__doc__ = types.__doc__ + ': %s -> %s' % (frm, to)
    return Harness(run, 'types_%s_%s' % (frm, to))


HARNESSES = [missing(*t) for t in TR] + [additive(*t) for t in TR] + [types(f, t) for e, f, t in TR if e == 'WET']
for _t in TR:
    _n = len(bases.keys(*_t[:2]))
    HARNESSES += [alone(*_t, 60 if _n > 600 else 12, 0, 1)]
    HARNESSES += [alone(*_t, 1, i, max(1, _n // 200), 'thorough') for i in range(max(1, _n // 200))]
ASSUMPTIONS = ASSUME
BOUNDS = ('All coefficients of the source basis symbolic, present or absent in three interleaved groups (all eight combinations), and in small sets with everything else missing (thorough: one by one); scale and '
          'all physical parameters symbolic; every registered WET/WET-4/WET-3 translator between JMS, Bern, flavio, EOS, FormFlavor.')
