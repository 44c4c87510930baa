"""Matching between WETs with fewer quark flavours: projection."""
import bases
import common
from vp import Harness

LINKS = [('WET', 'flavio', 'WET-4'), ('WET-4', 'flavio', 'WET-3'), ('WET', 'Bern', 'WET-4'), ('WET-4', 'Bern', 'WET-3'),
         ('WET', 'JMS', 'WET-4'), ('WET-4', 'JMS', 'WET-3'), ('WET-3', 'JMS', 'WET-2')]
PAR = ['alpha_s', 'm_b', 'Vus', 'GF']


def link(frm, b, to, given):
    def run(env):
        W = env.W
        bases.register(W, {(frm, b), (to, b)})
        names = list(bases.keys(frm, b))
        only = {'all': None, 'odd': lambda k: names.index(k) % 2 == 1, 'none': lambda k: False,
                'dropped': lambda k: k not in bases.keys(to, b)}[given]
        C = common.wcs(env, frm, b, only=only)
        keep = dict(C)
        par = common.params(env, PAR) if env.flag('parameters') else None
        kp = dict(par) if par else None
        scale = env.real('scale', 0.5, 5.)
        got = W.Matcher[frm, b, to, b].function(C, scale, par)
        env.true('input not modified', set(C) == set(keep) and all(C[k] is keep[k] for k in C))
        env.true('parameters not modified', par == kp)
        want = {k: v for k, v in keep.items() if k in bases.keys(to, b)}
        env.same_keys('%s -> %s: coefficients of the target basis, no others' % (frm, to),
                      [k for k in got if k in keep or not is_zero(got[k])], want)
        for k in want:
            env.eq('%s %s -> %s: %s unchanged' % (b, frm, to, k), got.get(k, 0), want[k])
        env.true('output is a new mapping', got is not C)
    run.__doc__ = 'matching %s -> %s in the %s basis, coefficients given: %s' % (frm, to, b, given)
    return Harness(run, '%s_%s_%s' % (b, frm, given), rel=0)


def is_zero(v):
    return isinstance(v, (int, float, complex)) and v == 0


def chain(b, via):
    """chained WC.match reaches the lowest EFT with exactly its coefficients"""
    def run(env):
        W = env.W
        bases.register(W, {(e, b) for e in via})
        C = common.wcs(env, via[0], b)
        low = bases.keys(via[-1], b)
        # the container only accepts numbers: use coefficients one level down through the functions
        x = C
        for a, c in zip(via, via[1:]):
            x = W.Matcher[a, b, c, b].function(x, env.real('scale', 0.5, 5.), None)
        env.same_keys('chain', x, [k for k in C if k in low])
        for k in x:
            env.eq('chain %s' % k, x[k], C.get(k, 0))
        # the link in the other direction is not offered
        for a, c in zip(via, via[1:]):
            env.true('no matching upwards', (c, b, a, b) not in W.Matcher.instances)
    run.__doc__ = 'WET -> ... -> %s in the %s basis' % (via[-1], b)
    return Harness(run, 'chain_' + b, rel=0)


HARNESSES = [link(*l, given=g) for l in LINKS for g in ('all', 'odd', 'none', 'dropped')]
HARNESSES += [chain('JMS', ['WET', 'WET-4', 'WET-3', 'WET-2']), chain('Bern', ['WET', 'WET-4', 'WET-3']),
              chain('flavio', ['WET', 'WET-4', 'WET-3'])]
ASSUMPTIONS = ['the basis definitions (empty git submodule in this checkout) are supplied by /verif/bases.py']
BOUNDS = ('Each of the seven registered links; every coefficient of the larger basis symbolic, with all, every second, only the dropped or '
          'none of them given; with and without user parameters; symbolic scale.')
