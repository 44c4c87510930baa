"""Matching: zero means Standard Model, missing means zero, user parameters, composed matchers."""
import bases
import common
from vp import Harness
from props.wet_common import ASSUME, CHAIN
from props.c10 import CKM

EWP = ['m_W', 'm_Z', 'GF', 'alpha_e']
MAIN = ('SMEFT', 'Warsaw up', 'WET', 'JMS')
TARGETS = ['JMS', 'flavio', 'EOS', 'Bern']
PT = {'m_W': 80.1, 'm_Z': 91.5, 'GF': 1.2e-5, 'alpha_e': 1 / 130., 'Vus': 0.22, 'Vub': 0.004, 'Vcb': 0.039, 'gamma': 1.1,
      'm_b': 4.3, 'm_s': 0.1, 'alpha_s': 0.12, 'm_e': 5e-4, 'm_mu': 0.11, 'm_tau': 1.7}


def zero(kind):
    def run(env):
        W = env.W
        bases.register(W, {('SMEFT', 'Warsaw up'), ('SMEFT', 'Warsaw'), ('WET', 'JMS')})
        frm = 'Warsaw' if env.flag('from Warsaw') else 'Warsaw up'
        par = common.params(env, EWP + CKM, box=common.ZBOX)
        C = {} if kind == 'empty' else dict.fromkeys(bases.keys('SMEFT', frm), 0)
        if kind == 'some':
            C = {k: 0.0 for i, k in enumerate(C) if i % 3}
        got = W.Matcher['SMEFT', frm, 'WET', 'JMS'].function(C, 91.2, dict(par))
        env.true('output is not empty', len(got) > 100)
        for k in got:
            env.eq('%s vanishes (%s)' % (k, frm), got[k], 0)
    run.__doc__ = 'vanishing (%s) SMEFT coefficients give vanishing WET coefficients for symbolic parameters' % kind
    return Harness(run, 'zero_' + kind)


def subset(n, m):
    """coefficients number n modulo m given, the rest missing or explicitly zero; parameters symbolic"""
    def run(env):
        W = env.W
        bases.register(W, {('SMEFT', 'Warsaw up'), ('WET', 'JMS')})
        par = common.params(env, EWP + CKM, box=common.ZBOX)
        ew = ('ll_1221', 'phil3_11', 'phil3_22', 'phiWB')
        # operators that multiply other ones in the tree-level exchange are kept out of the symbolic part
        quad = ('phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid', 'phiud')
        names = list(bases.keys('SMEFT', 'Warsaw up'))
        C = common.wcs(env, 'SMEFT', 'Warsaw up', only=lambda k: k not in ew and k.split('_')[0] not in quad
                       and names.index(k) % m == n)
        f = W.Matcher[MAIN].function
        a = f(dict(C), 91.2, dict(par))
        full = dict.fromkeys(names, 0)
        full.update(C)
        b = f(full, 91.2, dict(par))
        env.same_keys('output', a, b)
        for k in b:
            env.eq('%s: missing equals zero' % k, a.get(k, 0), b[k])
    run.__doc__ = subset.__doc__ + ' (%d of %d)' % (n, m)
    return Harness(run, 'missing_%d' % n)


def alone(part, n, step):
    """part of the coefficients of one operator given, everything else missing or explicitly zero; default parameters"""
    def run(env):
        W = env.W
        bases.register(W, {('SMEFT', 'Warsaw up'), ('WET', 'JMS')})
        f = W.Matcher[MAIN].function
        real = bases.keys('SMEFT', 'Warsaw up')
        zeros = dict.fromkeys(real, 0)
        ew = ('ll_1221', 'phil3_11', 'phil3_22', 'phiWB')
        ops = sorted({k.split('_')[0] for k in real})
        for i, o in enumerate(ops):
            if i % n != part:
                continue
            names = [k for k in real if k.split('_')[0] == o]
            for j in range(min(step, len(names))):
                C = {k: 1e-8 if k in ew else env.real(k) if real[k] else env.cplx(k) for k in names[j::step]}
                a = f(dict(C), 91.2, None)
                b = f(dict(zeros, **C), 91.2, None)
                env.same_keys('output', a, b)
                for k in b:
                    x, y = a.get(k, 0), b[k]
                    if not (type(x) is type(y) and not hasattr(x, 't') and x == y):
                        env.eq('%s with only %s given' % (k, sorted(C)[:3]), x, y)
    run.__doc__ = alone.__doc__ + ' (%d of %d)' % (part, n)
    return run


def composed(to, ops, tag, par=PT, tier='quick'):
    def run(env):
        W = env.W
        bases.register(W)
        C = common.wcs(env, 'SMEFT', 'Warsaw', only=lambda k: k.split('_')[0] in ops)
        keep = dict(C)
        scale = env.real('scale', *common.SCALE)
        P = lambda: dict(par) if par else None
        got = W.Matcher['SMEFT', 'Warsaw', 'WET', to].function(C, scale, P())
        env.true('input not modified', set(C) == set(keep) and all(C[k] is keep[k] for k in C))
        up = W.Translator['SMEFT', 'Warsaw', 'Warsaw up'].function(dict(keep), scale, P())
        want = W.Matcher[MAIN].function(up, scale, P())
        if to != 'JMS':
            want = W.Translator['WET', 'JMS', to].function(want, scale, P())
        env.same_keys('coefficients', got, want)
        env.eqdict('Warsaw -> %s' % to, got, want)
    run.__doc__ = 'matcher Warsaw -> %s equals translation, matching and translation one after the other; %s' % (to, ', '.join(ops))
    return Harness(run, tag, tier=tier)


def scale_free(env):
    """tree-level matching onto JMS does not depend on the scale; parameters are not modified and only those given are overridden"""
    W = env.W
    bases.register(W, {('SMEFT', 'Warsaw up'), ('WET', 'JMS')})
    C = common.wcs(env, 'SMEFT', 'Warsaw up', only=lambda k: k.split('_')[0] in ('eW', 'uB', 'dG', 'uG', 'lq1', 'qq3', 'eu', 'ledq', 'G'))
    drop = env.choice('drop', len(EWP + CKM))
    par = common.params(env, [k for i, k in enumerate(EWP + CKM) if i != drop],
                        box=common.ZBOX)
    keep = dict(par)
    f = W.Matcher[MAIN].function
    a = f(dict(C), env.real('scale', 60., 200.), par)
    env.true('parameters not modified', set(par) == set(keep) and all(par[k] is keep[k] for k in par))
    b = f(dict(C), env.real('scale2', 60., 200.), dict(common.DEFAULTS, **keep))
    env.eqdict('defaults fill in the parameters that are not given', a, b)


LIGHT = ['eW', 'eB', 'uW', 'uB', 'uG', 'dW', 'dB', 'dG', 'ledq', 'lequ1', 'lequ3', 'eu', 'ed', 'lu', 'ld', 'G']
HEAVY = ['lq1', 'lq3', 'qe', 'qu1', 'qd1', 'qu8', 'qd8', 'quqd1', 'quqd8', 'uu', 'dd', 'ud1', 'ud8', 'qq1', 'qq3']
EX = ['phiq1', 'phiq3', 'phiu', 'phid']
HARNESSES = [zero('empty'), zero('all'), zero('some'), Harness(scale_free)]
HARNESSES += [subset(i, 3) for i in range(3)]
HARNESSES += [Harness(alone(i, 8, 2), 'alone_%d' % i) for i in range(8)]
HARNESSES += [Harness(alone(i, 32, 99), 'single_%d' % i, tier='thorough') for i in range(32)]
for _t in TARGETS:
    HARNESSES += [composed(_t, LIGHT, _t + '_light'), composed(_t, HEAVY, _t + '_four'), composed(_t, EX, _t + '_exchange')]
    HARNESSES += [composed(_t, LIGHT + ['phid', 'lq1'], _t + '_default', None)]
ASSUMPTIONS = ASSUME + ['composed matchers: parameters at a concrete point different from the defaults (and at the defaults); '
                        'missing = zero: the operators entering Z and W exchange quadratically are kept concrete']
BOUNDS = ('All non-exchange coefficients of the up-aligned Warsaw basis in three groups, and half of the coefficients of each operator (thorough: each coefficient) alone, symbolic electroweak and CKM parameters; composed '
          'matchers: three groups of operators with every coefficient symbolic, symbolic scale, two concrete parameter points.')
