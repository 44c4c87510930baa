"""Matching SMEFT (up-aligned Warsaw) -> WET (JMS)."""
import bases
import common
import refs_match
from vp import Harness
from props.wet_common import ASSUME

EWK = ['ll_1221', 'phil3_11', 'phil3_22', 'phiWB']
POINTS = {
    'default': (None, (0, 0, 0, 0)),
    'shifted': (None, (3e-8, -2e-8, 5e-8, 4e-8)),
    'user': ({'m_W': 80.1, 'm_Z': 91.5, 'GF': 1.2e-5, 'alpha_e': 1 / 130., 'Vus': 0.22, 'Vub': 0.004, 'Vcb': 0.039,
              'gamma': 1.1}, (-4e-8, 1e-8, 3e-8, -5e-8)),
    'partial': ({'m_Z': 90.9, 'alpha_e': 1 / 125.}, (0, 2e-8, 0, 3e-8)),
}


def run_point(point, ops, sel=None):
    par, ew = POINTS[point]

    def run(env):
        W = env.W
        bases.register(W, {('SMEFT', 'Warsaw up'), ('WET', 'JMS')})
        need = {'phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid', 'phiud'} if ops is not None else set()
        C = common.wcs(env, 'SMEFT', 'Warsaw up', only=lambda k: k not in EWK and (
            ops is None or k.split('_')[0] in ops or k.split('_')[0] in need))
        for k, v in zip(EWK, ew):
            if v:
                C[k] = v
        keep = dict(C)
        got = W.Matcher['SMEFT', 'Warsaw up', 'WET', 'JMS'].function(C, 91.2, dict(par) if par else None)
        env.true('input not modified', set(C) == set(keep) and all(C[k] is keep[k] for k in C))
        p = dict(common.DEFAULTS, **(par or {}))
        want = refs_match.match(keep, p, common.ckm(env, p), ew, bases.keys('WET', 'JMS'))
        env.true('only coefficients of the target basis', set(got) <= set(want))
        for k in want:
            env.eq('%s (%s)' % (k, point), got.get(k, 0), want[k])
    run.__doc__ = 'every JMS coefficient against the published matching, SM part subtracted, at parameter point "%s"' % point
    return run


HARNESSES = [Harness(run_point('user', None), 'user', max_seconds=600),
             Harness(run_point('shifted', None), 'shifted', max_seconds=600),
             Harness(run_point('default', None), 'default', max_seconds=600, tier='thorough'),
             Harness(run_point('partial', None), 'partial', max_seconds=600)]
ASSUMPTIONS = ASSUME + ['the electroweak inputs (m_W, m_Z, GF, alpha_e, CKM) and the four coefficients that shift them '
                        '(ll_1221, phil3_11, phil3_22, phiWB) take concrete values at the stated points']
BOUNDS = ('All other coefficients of the up-aligned Warsaw basis symbolic simultaneously; parameter / electroweak points: default, shifted '
          'coefficients, all user parameters, some user parameters.')
