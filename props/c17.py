import bases
import common
import refs
from vp import Harness
from props.wet_common import make, ASSUME, CHAIN


def _setup(env, eft, frm, mode):
    W = env.W
    bases.register(W)
    C = common.wcs(env, eft, frm)
    par = common.params(env, CHAIN) if mode == 'full' else (
        common.params(env, ['Vus', 'alpha_e', 'm_b', 'GF']) if mode == 'partial' else None)
    scale = env.real('scale', *common.SCALE)
    return W, C, scale, (lambda: dict(par) if par is not None else None)


def f_b_f(eft, mode):
    def run(env):
        W, C, scale, par = _setup(env, eft, 'flavio', mode)
        b = W.Translator[eft, 'flavio', 'Bern'].function(dict(C), scale, par())
        f = W.Translator[eft, 'Bern', 'flavio'].function(dict(b), scale, par())
        env.eqdict('%s flavio->Bern->flavio' % eft, f, C)
    run.__doc__ = '%s: flavio -> Bern -> flavio is the identity on every flavio coefficient' % eft
    return run


# sectors of the Bern basis that the flavio basis can express completely
def expressible(k):
    if 'nu1' in k or '7gamma' in k or '7pgamma' in k or '8g' in k or '8pg' in k:
        return not (k.endswith('ds') and 'nu' not in k)
    for qq in bases.BERN_QQ:
        if k in [p + 2 * qq for p in ('1', '2', '3', '4', '5', '1p', '2p', '3p')]:
            return True
    for ud in bases.CC:
        if k in [p + ud + l + lp for l in bases.L for lp in bases.L for p in ('1', '5', '1p', '5p', '7p')]:
            return True
    return False


def b_f_b(eft, mode):
    def run(env):
        W, C, scale, par = _setup(env, eft, 'Bern', mode)
        C = {k: v for k, v in C.items() if expressible(k)}
        f = W.Translator[eft, 'Bern', 'flavio'].function(dict(C), scale, par())
        b = W.Translator[eft, 'flavio', 'Bern'].function(dict(f), scale, par())
        env.eqdict('%s Bern->flavio->Bern' % eft, b, C)
    run.__doc__ = ('%s: Bern -> flavio -> Bern is the identity on the sectors flavio can express completely '
                   '(meson mixing, charged currents, neutrino modes, b dipoles)' % eft)
    return run


H = [make('reference', 'WET', 'Bern', 'flavio', refs.bern_to_flavio),
     make('reference_partial', 'WET', 'Bern', 'flavio', refs.bern_to_flavio, 'partial')]
for e in ('WET', 'WET-4', 'WET-3'):
    t = e.replace('-', '')
    H.append(Harness(f_b_f(e, 'full'), 'fbf_' + t))
    H.append(Harness(b_f_b(e, 'full'), 'bfb_' + t))
    if e != 'WET':
        H.append(make('reference_' + t, e, 'Bern', 'flavio', refs.bern_to_flavio))
H.append(Harness(f_b_f('WET', 'none'), 'fbf_defaults'))
H.append(Harness(b_f_b('WET', 'none'), 'bfb_defaults'))
H.append(Harness(f_b_f('WET', 'partial'), 'fbf_partial', tier='thorough'))
HARNESSES = H
ASSUMPTIONS = ASSUME
BOUNDS = ('All Bern / flavio coefficients of the basis definition are independent symbolic complex numbers, the scale '
          'is symbolic in [2.5,180] GeV, the physical parameters are symbolic in boxes around their physical values.')
