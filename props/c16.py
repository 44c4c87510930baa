import bases
import common
import refs
from vp import Harness
from props.wet_common import make, ASSUME, CHAIN
R = refs.jms_to_flavio


def diagram(eft, mode):
    def run(env):
        W = env.W
        bases.register(W)
        C = common.wcs(env, eft, 'JMS')
        par = common.params(env, CHAIN) if mode == 'full' else None
        scale = env.real('scale', *common.SCALE)
        cp = lambda: dict(par) if par is not None else None
        direct = W.Translator[eft, 'JMS', 'flavio'].function(dict(C), scale, cp())
        b = W.Translator[eft, 'JMS', 'Bern'].function(dict(C), scale, cp())
        two = W.Translator[eft, 'Bern', 'flavio'].function(dict(b), scale, cp())
        env.eqdict('%s JMS->flavio == JMS->Bern->flavio' % eft, direct, two)
    run.__doc__ = '%s: direct JMS -> flavio equals the detour through Bern' % eft
    return run


H4 = []
for _e in ('WET-4', 'WET-3'):
    _t = _e.replace('-', '')
    H4 += [make('full_' + _t, _e, 'JMS', 'flavio', R), Harness(diagram(_e, 'full'), 'diagram_' + _t)]
HARNESSES = H4 + [make('full', 'WET', 'JMS', 'flavio', R),
             make('partial', 'WET', 'JMS', 'flavio', R, 'partial'),
             make('defaults', 'WET', 'JMS', 'flavio', R, 'none'),
             Harness(diagram('WET', 'full'), 'diagram', rel=1e-9),
             Harness(diagram('WET', 'none'), 'diagram_defaults', rel=1e-9, tier='thorough')]
ASSUMPTIONS = ASSUME
BOUNDS = ('All JMS coefficients of the basis definition are independent symbolic numbers, the scale is symbolic in '
          '[2.5,180] GeV, the physical parameters are symbolic in boxes around their physical values.')
