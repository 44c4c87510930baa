"""Running strong coupling and quark masses."""
import common
from vp import Harness
from symx.loader import make_rundec

MZ, MC, MB, MT, LOOP = 91.1876, 1.3, 4.8, 170, 3
BOX = {'alpha_s': (0.11, 0.125), 'm_b': (3.9, 4.5), 'm_c': (1.1, 1.4), 'm_s': (0.07, 0.13)}
SCALES = {3: (0.9, 2.5), 4: (1.1, 6.), 5: (1.5, 400.), 6: (100., 2000.)}
FLAVOURS = {'alpha_s': (3, 4, 5, 6), 'm_b': (3, 4, 5, 6), 'm_c': (3, 4, 5), 'm_s': (3, 4, 5)}


class Ref:
    """closed form: three-loop RunDec with the thresholds crossed one after the other"""

    def __init__(self, env):
        if env.sym:
            env.W
            self.rundec = env.pkg.stubs['rundec']
        else:
            import rundec
            self.rundec = rundec

    def crd(self, th, nf):
        c = self.rundec.CRunDec()
        if th:
            c.nfMmu.Mth = c.nfMmu.muth = th
            c.nfMmu.nf = nf
        return c

    def alpha_s(self, scale, f, a):
        if f == 5:
            if scale == MZ:
                return a
            return self.crd(0, 0).AlphasExact(a, MZ, scale, 5, LOOP)
        if f == 6:
            c = self.crd(MT, 6)
            return c.AlL2AlH(a, MZ, c.nfMmu, scale, LOOP)
        c = self.crd(MB, 5)
        if f == 4:
            return c.AlH2AlL(a, MZ, c.nfMmu, scale, LOOP)
        amc = c.AlH2AlL(a, MZ, c.nfMmu, MC, LOOP)
        c = self.crd(MC, 4)
        return c.AlH2AlL(amc, MC, c.nfMmu, scale, LOOP)

    def same(self, m, s0, f, scale, a):
        return self.crd(0, 0).mMS2mMS(m, self.alpha_s(s0, f, a), self.alpha_s(scale, f, a), f, LOOP)

    def m_b(self, m, scale, f, a):
        if f == 5:
            return m if scale == m else self.same(m, m, 5, scale, a)
        ab = self.alpha_s(m, 5, a)
        if f == 6:
            c = self.crd(MT, 6)
            return c.mL2mH(m, ab, m, c.nfMmu, scale, LOOP)
        c = self.crd(MB, 5)
        if f == 4:
            return c.mH2mL(m, ab, m, c.nfMmu, scale, LOOP)
        x = c.mH2mL(m, ab, m, c.nfMmu, MC, LOOP)
        c = self.crd(MC, 4)
        return c.mH2mL(x, self.alpha_s(MC, 4, a), MC, c.nfMmu, scale, LOOP)

    def m_c(self, m, scale, f, a):
        if f == 4:
            return m if scale == m else self.same(m, m, 4, scale, a)
        ac = self.alpha_s(m, 4, a)
        if f == 3:
            c = self.crd(MC, 4)
            return c.mH2mL(m, ac, m, c.nfMmu, scale, LOOP)
        c = self.crd(MB, 5)
        return c.mL2mH(m, ac, m, c.nfMmu, scale, LOOP)

    def m_s(self, m, scale, f, a):
        if f == 3:
            return m if scale == 2 else self.same(m, 2, 3, scale, a)
        a2 = self.alpha_s(2, 3, a)
        c = self.crd(MC, 4)
        if f == 4:
            return c.mL2mH(m, a2, 2, c.nfMmu, scale, LOOP)
        x = c.mL2mH(m, a2, 2, c.nfMmu, MC, LOOP)
        c = self.crd(MB, 5)
        return c.mL2mH(x, self.alpha_s(MC, 4, a), MC, c.nfMmu, scale, LOOP)


def call(env, obj, name, scale, f, a, m):
    if name == 'alpha_s':
        return getattr(obj, name)(scale, f, a)
    return getattr(obj, name)(m, scale, f, a)


def at(env, scale, *defining):
    """the scale is one of the defining scales, or different from all of them"""
    for i, m in enumerate(defining):
        if env.flag('at defining scale %d' % i):
            return m
        env.assume(scale != m)
    return scale


def value(name):
    def run(env):
        Q = env.module('wcxf.util.qcd')
        fs = FLAVOURS[name]
        f = fs[env.choice('f', len(fs))]
        scale = env.real('scale_f%d' % f, *SCALES[f])
        a = env.real('alpha_s', *BOX['alpha_s'])
        m = env.real(name, *BOX[name])
        scale = at(env, scale, {'alpha_s': MZ, 'm_s': 2}.get(name, m))
        kw = env.choice('how', 3)
        if kw == 0:
            got = call(env, Q, name, scale, f, a, m)
        elif kw == 1:       # keyword arguments
            args = (scale, f) if name == 'alpha_s' else (m, scale, f)
            got = getattr(Q, name)(*args, alphasMZ=a)
        else:               # default coupling
            a = 0.1185
            args = (scale, f) if name == 'alpha_s' else (m, scale, f)
            got = getattr(Q, name)(*args)
        env.eq('%s f=%d' % (name, f), got, call(env, Ref(env), name, scale, f, a, m))
    run.__doc__ = name + ' against three-loop running with the thresholds 1.3, 4.8 and 170 GeV, symbolic scale and input values'
    return Harness(run, 'value_' + name)


def start(env):
    """at the scale where the input is defined the input itself is returned"""
    Q = env.module('wcxf.util.qcd')
    a = env.real('alpha_s', *BOX['alpha_s'])
    env.eq('alpha_s(MZ)', Q.alpha_s(MZ, 5, a), a)
    for n, f in (('m_b', 5), ('m_c', 4)):
        m = env.real(n, *BOX[n])
        env.eq('%s(%s)' % (n, n), getattr(Q, n)(m, m, f, a), m)
    m = env.real('m_s', *BOX['m_s'])
    env.eq('m_s(2 GeV)', Q.m_s(m, 2, 3, a), m)
    env.eq('m_s(2. GeV)', Q.m_s(m, 2.0, 3, a), m)


BADF = [2, 7, 0, -1, 100, 6]


def reject(env):
    """a scale that is not positive or a number of flavours out of range is rejected, before and after valid calls"""
    Q = env.module('wcxf.util.qcd')
    name = ['alpha_s', 'm_b', 'm_c', 'm_s'][env.choice('name', 4)]
    a = env.real('alpha_s', *BOX['alpha_s'])
    m = env.real(name, *BOX[name])
    if env.flag('valid call before'):
        call(env, Q, name, 5.5, 5, a, m)
    k = env.choice('what', 4)
    if k == 0:
        s = env.real('bad scale', -10., 0.)
        f = FLAVOURS[name][env.choice('f', len(FLAVOURS[name]))]
        env.raises('%s: scale not positive' % name, ValueError, call, env, Q, name, s, f, a, m)
    elif k == 1:
        s = env.real('scale', 1.5, 80.)
        f = BADF[env.choice('bad f', len(BADF) if name in ('m_c', 'm_s') else len(BADF) - 1)]
        env.raises('%s: f=%d' % (name, f), ValueError, call, env, Q, name, s, f, a, m)
    elif k == 2:
        f = [4.5, '5', None, 5.0][env.choice('type of f', 4)]
        env.raises('%s: f=%r' % (name, f), ValueError, call, env, Q, name, 5.5, f, a, m)
    else:
        s = ['10', None, 0, 0.0][env.choice('type of scale', 4)]
        env.raises('%s: scale=%r' % (name, s), ValueError, call, env, Q, name, s, 5, a, m)


def history(n1, n2):
    def run(env):
        P = env.fresh_package()
        import importlib
        Q = env.module('wcxf.util.qcd')
        R = Ref(env)
        a1, a2 = env.real('alpha_s', *BOX['alpha_s']), env.real('alpha_s2', *BOX['alpha_s'])
        s1, s2 = env.real('scale', 2., 6.), env.real('scale2', 2., 6.)
        m1, m2 = env.real('m', *BOX[n1]), env.real('m2', *BOX[n2])
        for s in (s1, s2):      # equality: harness start
            for x in (m1, m2, 2):
                env.assume(s != x)
        f1 = FLAVOURS[n1][env.choice('f', len(FLAVOURS[n1]))]
        f2 = FLAVOURS[n2][env.choice('f2', len(FLAVOURS[n2]))]
        x = call(env, Q, n1, s1, f1, a1, m1)
        y = call(env, Q, n2, s2, f2, a2, m2)
        z = call(env, Q, n1, s1, f1, a1, m1)
        env.eq('first', x, call(env, R, n1, s1, f1, a1, m1))
        env.eq('second', y, call(env, R, n2, s2, f2, a2, m2))
        env.eq('first again', z, x)
        # only one argument differs
        w = call(env, Q, n1, s1, f1, a2, m1)
        env.eq('other coupling', w, call(env, R, n1, s1, f1, a2, m1))
        v = call(env, Q, n1, s2, f1, a1, m1)
        env.eq('other scale', v, call(env, R, n1, s2, f1, a1, m1))
    run.__doc__ = 'results of %s do not depend on the calls made before (%s in between)' % (n1, n2)
    return Harness(run, 'history_%s_%s' % (n1, n2))


def params(env):
    """the translators' parameters at a scale: user values override defaults, masses and coupling are run consistently"""
    T = env.module('wcxf.translators.wet')
    R = Ref(env)
    names = ['m_b', 'm_s', 'alpha_s', 'm_W', 'm_Z', 'GF', 'alpha_e', 'Vus', 'Vub', 'Vcb', 'gamma', 'm_e', 'm_mu', 'm_tau']
    drop = env.choice('drop', len(names) + 1)
    par = common.params(env, [n for i, n in enumerate(names) if i != drop])
    scale = env.real('scale', 2.5, 180.)
    if 'm_b' in par:
        env.assume(par['m_b'] != common.DEFAULTS['m_b'])
    scale = at(env, scale, *([par['m_b']] if 'm_b' in par else []), common.DEFAULTS['m_b'])
    f = [5, 4, 3][env.choice('f', 3)]
    keep = dict(par)
    got = T.get_parameters(scale, f=f, input_parameters=par)
    env.true('input not modified', set(par) == set(keep) and all(par[k] is keep[k] for k in keep))
    p = dict(common.DEFAULTS, **keep)
    want = dict(p, m_b=R.m_b(p['m_b'], scale, f, p['alpha_s']), m_s=R.m_s(p['m_s'], scale, f, p['alpha_s']),
                alpha_s=R.alpha_s(scale, f, p['alpha_s']))
    for n in names:
        env.eq('parameter %s' % n, got[n], want[n])
    none = T.get_parameters(scale)
    for n in names:
        if n not in ('m_b', 'm_s', 'alpha_s'):
            env.eq('default %s' % n, none[n], common.DEFAULTS[n])
    env.eq('default m_b', none['m_b'], R.m_b(common.DEFAULTS['m_b'], scale, 5, common.DEFAULTS['alpha_s']))


N = ['alpha_s', 'm_b', 'm_c', 'm_s']
HARNESSES = [value(n) for n in N] + [Harness(start), Harness(reject, max_paths=600), Harness(params, max_paths=800)]
HARNESSES += [history(a, b) for i, a in enumerate(N) for b in (N[i], N[(i + 1) % 4])]
for _h in HARNESSES:
    _h.pkg_args = {'stubs': make_rundec(identity=True)}
ASSUMPTIONS = ['rundec (external C library) is an uninterpreted function of its arguments and threshold settings; '
               'its own accuracy is outside the claim',
               'running from a scale to the same scale is the identity']
BOUNDS = ('Scale, input masses and input coupling symbolic (boxes around physical values), 3 to 6 flavours, all four functions; histories of '
          'up to five calls of two functions; out-of-range arguments: every non-positive scale in [-10,0] and a list of flavour numbers and types.')
