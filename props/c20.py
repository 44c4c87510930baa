"""FlavorKit <-> JMS, FlavorKit -> flavio."""
import json
import os
import math
import bases
import common
from common import conj
from vp import Harness, HERE
from props.wet_common import ASSUME, CHAIN

with open(os.path.join(HERE, 'flavorkit_names.json')) as _f:
    NAMES = json.load(_f)
# FlavorKit type -> (JMS operator, position of the FlavorKit index at each JMS position, complex conjugated)
RULE = {}
for _n, _o in {'DSRR': 'S1ddRR', 'DVLL': 'VddLL', 'DVRR': 'VddRR', 'DVLR': 'V1ddLR', 'EVLR': 'VdeLR', 'AVLL': 'VeeLL',
               'AVRR': 'VeeRR', 'AVLR': 'VeeLR', 'ASRR': 'SeeRR', 'BVLL': 'VedLL', 'BVRR': 'VedRR', 'BVLR': 'VedLR',
               'BSRL': 'SedRL', 'BSRR': 'SedRR', 'BTRR': 'TedRR', 'CVLL': 'VeuLL', 'CVRR': 'VeuRR', 'CVLR': 'VeuLR',
               'CSRL': 'SeuRL', 'CSRR': 'SeuRR', 'CTRR': 'TeuRR'}.items():
    RULE[_n] = (_o, (1, 0, 3, 2), False)
for _n, _o in {'FVLL': 'VnudLL', 'FVRL': 'VnudLR', 'ESRR': 'SedRR', 'ESLR': 'SedRL', 'ETRR': 'TedRR', 'DVRL': 'V1ddLR',
               'EVLL': 'VedLL', 'EVRR': 'VedRR', 'EVRL': 'VedLR'}.items():
    RULE[_n] = (_o, (3, 2, 1, 0), False)
for _n, _o in {'GVLL': 'VnueduLL', 'GVRL': 'VnueduLR', 'GSLL': 'SnueduRR', 'GSRL': 'SnueduRL'}.items():
    RULE[_n] = (_o, (2, 3, 0, 1), True)
for _n, _o in {'Q1R': 'dgamma', 'Q2R': 'dG', 'K2R': 'egamma'}.items():
    RULE[_n] = (_o, (1, 0), False)


def jms_name(k):
    """(JMS name, conjugated?) of a FlavorKit name"""
    p, i = k.split('_')
    i = [int(x) - 1 for x in i]
    o, perm, c = RULE[p]
    orb = bases.orbit(tuple(i[q] for q in perm), bases.JMS[o][1])
    rep = min(x for x, _ in orb)
    return bases.nm(o, rep), c ^ ((rep, False) not in orb)


def dipole(env, k, p):
    m = {'1': 'm_e', '2': 'm_mu', '3': 'm_tau'}[k.split('_')[1][0]]
    return common.sqrt(4 * math.pi * p['alpha_e']) * p[m] / 2


def pars(env, mode):
    return {'full': lambda: common.params(env, CHAIN), 'partial': lambda: common.params(env, ['alpha_e', 'm_mu']),
            'none': lambda: None}[mode]()


def forward(names, mode, tag):
    def run(env):
        W = env.W
        bases.register(W)
        C = {k: env.cplx(k) for k in names}
        keep = dict(C)
        par = pars(env, mode)
        scale = env.real('scale', *common.SCALE)
        got = W.Translator['WET', 'FlavorKit', 'JMS'].function(C, scale, dict(par) if par else None)
        env.true('input not modified', set(C) == set(keep) and all(C[k] is keep[k] for k in C))
        p = dict(common.DEFAULTS, **(par or {}))
        want = {}
        for k, v in keep.items():
            j, c = jms_name(k)
            want[j] = (conj(v) if c else v) * (dipole(env, k, p) if k.startswith('K2R') else 1)
        env.same_keys('JMS coefficients', got, want)
        env.eqdict('FlavorKit -> JMS', got, want)
    run.__doc__ = 'FlavorKit -> JMS for %d coefficients; parameters: %s' % (len(names), mode)
    return Harness(run, tag)


def backward(sel, mode, tag):
    def run(env):
        W = env.W
        bases.register(W)
        jn = {}
        for k in NAMES:
            j, c = jms_name(k)
            jn[j] = (k, c)
        C = common.wcs(env, 'WET', 'JMS', only=(lambda k: sel(k)))
        keep = dict(C)
        par = pars(env, mode)
        scale = env.real('scale', *common.SCALE)
        got = W.Translator['WET', 'JMS', 'FlavorKit'].function(C, scale, dict(par) if par else None)
        env.true('input not modified', set(C) == set(keep) and all(C[k] is keep[k] for k in C))
        p = dict(common.DEFAULTS, **(par or {}))
        want = {}
        for j, v in keep.items():
            if j in jn:
                k, c = jn[j]
                want[k] = (conj(v) if c else v) / (dipole(env, k, p) if k.startswith('K2R') else 1)
        env.same_keys('FlavorKit coefficients', got, want)
        env.eqdict('JMS -> FlavorKit', got, want)
    run.__doc__ = 'JMS -> FlavorKit; parameters: ' + mode
    return Harness(run, tag)


def roundtrip(env):
    """FlavorKit -> JMS -> FlavorKit is the identity"""
    W = env.W
    bases.register(W)
    C = {k: env.cplx(k) for k in NAMES}
    par = common.params(env, ['alpha_e', 'm_e', 'm_mu', 'm_tau'])
    s = env.real('scale', *common.SCALE)
    x = W.Translator['WET', 'FlavorKit', 'JMS'].function(dict(C), s, dict(par))
    env.true('no two coefficients are merged', len(x) == len(C))
    y = W.Translator['WET', 'JMS', 'FlavorKit'].function(x, s, dict(par))
    env.eqdict('round trip', y, C)
    env.same_keys('round trip', y, C)


def flavio(mode):
    def run(env):
        W = env.W
        bases.register(W)
        C = {k: env.cplx(k) for k in NAMES}
        par = pars(env, mode)
        P = lambda: dict(par) if par else None
        s = env.real('scale', *common.SCALE)
        got = W.Translator['WET', 'FlavorKit', 'flavio'].function(dict(C), s, P())
        x = W.Translator['WET', 'FlavorKit', 'JMS'].function(dict(C), s, P())
        want = W.Translator['WET', 'JMS', 'flavio'].function(x, s, P())
        env.same_keys('flavio coefficients', got, want)
        env.eqdict('FlavorKit -> flavio', got, want)
    run.__doc__ = 'FlavorKit -> flavio is the composition through JMS; parameters: ' + mode
    return Harness(run, 'flavio_' + mode)


BAD = ['DVLL_9999', 'Q1R', 'foo', 'AVLL_2232', 'K1R_12', 'VddLL_2323', 'KXR_12', '']


def unknown(env):
    """an unknown FlavorKit name is rejected instead of being dropped or passed through"""
    W = env.W
    bases.register(W)
    names = [NAMES[0], NAMES[-1]] if env.flag('others') else []
    bad = BAD[env.choice('bad', len(BAD))]
    C = {k: env.cplx(k) for k in names + [bad]}
    if env.flag('first'):
        C = {k: C[k] for k in [bad] + names}
    env.raises('unknown FlavorKit name %r' % bad, ValueError, W.Translator['WET', 'FlavorKit', 'JMS'].function, C, 80., None)


half = [k for i, k in enumerate(NAMES) if i % 2] + ['K2R_23', 'AVRR_2231']
HARNESSES = [forward(NAMES, 'full', 'to_jms'), forward(NAMES, 'none', 'to_jms_default'),
             forward([k for k in NAMES if k[:2] in ('K2', 'AV', 'Q1')], 'partial', 'to_jms_partial'), forward(half, 'full', 'to_jms_half'),
             backward(lambda k: True, 'full', 'from_jms'), backward(lambda k: True, 'none', 'from_jms_default'),
             backward(lambda k: k.split('_')[0] in ('egamma', 'VeeLL', 'SeeRR', 'VnueLL'), 'partial', 'from_jms_partial'),
             backward(lambda k: k.split('_')[0] in ('egamma', 'dgamma', 'G', 'uG'), 'full', 'from_jms_dipoles'),
             Harness(roundtrip), flavio('full'), flavio('none'), Harness(unknown)]
ASSUMPTIONS = ASSUME
BOUNDS = ('All %d FlavorKit coefficients and all JMS coefficients symbolic complex; lepton masses, electromagnetic coupling and scale symbolic '
          '(or partly or all default); eight unknown names in all positions.' % len(NAMES))
