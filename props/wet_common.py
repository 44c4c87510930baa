"""Harness factory for a WET translator against its reference."""
import bases
import common
from vp import Harness

CHAIN = ['GF', 'alpha_e', 'alpha_s', 'Vus', 'Vub', 'Vcb', 'gamma', 'm_b', 'm_s', 'm_e', 'm_mu', 'm_tau']

ASSUME = [
    'floating point arithmetic is treated as real arithmetic with a relative tolerance of 1e-9 per equation',
    'ckm_tree (external package ckmutil) is an uninterpreted function of its four arguments with nonzero entries; '
    'rundec (external C library) is an uninterpreted function of its arguments',
    'the basis definitions (empty git submodule in this checkout) are supplied by /verif/bases.py',
]


def make(name, eft, frm, to, ref, mode='full', tier='quick', in_keys=None):
    """mode: full = all parameters symbolic, partial = some user parameters, none = defaults"""
    def run(env):
        W = env.W
        bases.register(W)
        C = common.wcs(env, eft, frm) if in_keys is None else in_keys(env)
        par = None
        if mode == 'full':
            par = common.params(env, CHAIN)
        elif mode == 'partial':
            par = common.params(env, ['Vus', 'alpha_e', 'm_b', 'GF'])
        scale = env.real('scale', *common.SCALE)
        got = W.Translator[eft, frm, to].function(dict(C), scale, dict(par) if par is not None else None)
        p = common.get_params(env, scale, par)
        want = ref(env, C, p)
        for k in sorted(set(got) | set(want)):
            env.eq('%s %s->%s [%s]' % (eft, frm, to, k), got.get(k, 0), want.get(k, 0))
        known = set(bases.keys(eft, to)) if eft == 'WET' else None
        if known is not None:
            env.same_keys('output names are those of the %s basis' % to, [k for k in got], known)
    run.__doc__ = '%s %s -> %s against the closed-form reference; parameters: %s' % (eft, frm, to, mode)
    return Harness(run, name, tier=tier)
