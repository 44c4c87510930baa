"""Translations and matchings are pure: no effect on arguments, defaults or later results."""
import copy
import bases
import common
from vp import Harness
from props.wet_common import ASSUME, CHAIN
from props.c20 import NAMES as FK

ROUTES = [('SMEFT', 'Warsaw', 'Warsaw mass'), ('SMEFT', 'Warsaw', 'Warsaw up'), ('SMEFT', 'Warsaw up', 'Warsaw'),
          ('WET', 'JMS', 'flavio'), ('WET-4', 'JMS', 'flavio'), ('WET-3', 'JMS', 'flavio'), ('WET', 'Bern', 'flavio'),
          ('WET', 'flavio', 'Bern'), ('WET-4', 'Bern', 'flavio'), ('WET-4', 'flavio', 'Bern'), ('WET-3', 'Bern', 'flavio'),
          ('WET-3', 'flavio', 'Bern'), ('WET', 'JMS', 'EOS'), ('WET', 'JMS', 'Bern'), ('WET-4', 'JMS', 'Bern'), ('WET-3', 'JMS', 'Bern'),
          ('WET', 'JMS', 'formflavor'), ('WET', 'FlavorKit', 'JMS'), ('WET', 'JMS', 'FlavorKit'), ('WET', 'FlavorKit', 'flavio'),
          ('SMEFT', 'Warsaw up', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'flavio'),
          ('SMEFT', 'Warsaw', 'WET', 'EOS'), ('SMEFT', 'Warsaw', 'WET', 'Bern'), ('WET', 'flavio', 'WET-4', 'flavio'),
          ('WET-4', 'flavio', 'WET-3', 'flavio'), ('WET', 'Bern', 'WET-4', 'Bern'), ('WET-4', 'Bern', 'WET-3', 'Bern'),
          ('WET', 'JMS', 'WET-4', 'JMS'), ('WET-4', 'JMS', 'WET-3', 'JMS'), ('WET-3', 'JMS', 'WET-2', 'JMS')]
SMPAR = {'m_W': 80.1, 'm_Z': 91.5, 'GF': 1.2e-5, 'alpha_e': 1 / 130., 'Vus': 0.22, 'Vub': 0.004, 'Vcb': 0.039, 'gamma': 1.1,
         'm_b': 4.3, 'm_s': 0.1, 'alpha_s': 0.12, 'm_e': 5e-4, 'm_mu': 0.11, 'm_tau': 1.7}


def names(eft, basis):
    if basis == 'FlavorKit':
        return dict.fromkeys(FK, False)
    return bases.keys(eft, basis)


def func(W, route):
    return (W.Translator if len(route) == 3 else W.Matcher)[route].function


def coeffs(env, route, tag, step, off):
    eft, b = route[:2]
    ks = sorted(names(eft, b))
    if eft == 'SMEFT':
        # operators entering Z and W exchange quadratically would multiply out: keep to one of them
        ks = [k for k in ks if not k.startswith('phi') or k.startswith('phid_')]
        step *= 4
    ks = ks[off::step]
    return {k: env.real(tag + k) if names(eft, b)[k] else env.cplx(tag + k) for k in ks}


def unchanged(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in a)


def state(W, env):
    p = env.module('wcxf.parameters').p
    u = env.module('wcxf.util.smeftutil')
    tables = ('WC_keys_0f', 'WC_keys_2f', 'WC_keys_4f', 'WC_keys', 'C_symm_keys', 'C_keys_shape')
    return {'parameters': dict(p), 'tables': copy.deepcopy({n: getattr(u, n, None) for n in tables}),
            'registry': [list(c.instances) for c in (W.EFT, W.Basis, W.Translator, W.Matcher)],
            'bases': [(k, list(b.sectors), {s: list(w) for s, w in b.sectors.items()}) for k, b in W.Basis.instances.items()]}


def purity(route, other):
    def run(env):
        sm = route[0] == 'SMEFT'
        user = {k: SMPAR[k] for k in SMPAR} if sm else common.params(env, CHAIN)
        some = {k: user[k] for k in ('alpha_e', 'Vus', 'm_b', 'GF')}
        scale = 91.2 if sm else env.real('scale', *common.SCALE)
        scale2 = 120. if sm else env.real('scale2', *common.SCALE)
        C = coeffs(env, route, '', 9, 1)
        D = coeffs(env, route, 'other ', 7, 0)
        par = [None, some][env.choice('parameters', 2)]

        # reference: the first thing a fresh process does
        W = env.W
        bases.register(W)
        want = func(W, route)(dict(C), scale, None if par is None else dict(par))
        want = dict(want)

        # a second process with a history
        if env.sym:
            W2 = env.fresh_package()
            env._W, env.pkg = W2, env.last_pkg
        else:
            W2 = env.fresh_package()
            env._W = W2
        bases.register(W2)
        before = state(W2, env)
        f = func(W2, route)
        h = env.choice('history', 4)
        outs = []
        if h == 0:          # other coefficients, all parameters
            c, p = dict(D), dict(user)
            outs.append(f(c, scale, p))
            env.true('coefficients not modified', unchanged(c, D))
            env.true('parameters not modified', unchanged(p, user))
            p.clear()
            c.clear()
        elif h == 1:        # same coefficients, other scale and other parameters
            c, p = dict(C), {k: v for k, v in user.items() if k not in some}
            q = dict(p)
            outs.append(f(c, scale2, p))
            env.true('coefficients not modified', unchanged(c, C))
            env.true('parameters not modified', unchanged(p, q))
            outs.append(f(c, scale2, None if par is not None else dict(some)))
            outs.append(f(dict(C), scale, None if par is None else dict(par)))
        elif h == 2:        # other conversions
            for r in other:
                g = func(W2, r)
                outs.append(g(coeffs(env, r, 'o', 31, 2), 80., dict(SMPAR)))
                outs.append(g(coeffs(env, r, 'o', 31, 2), 80., None))
        else:               # a failing call
            c = dict(C)
            c[sorted(C)[0]] = 'nonsense'
            for a in ((c, scale, None), (None, scale, dict(user)), (dict(C), scale, {'Vus': 'nonsense', 'alpha_e': 'x', 'm_b': 3.})):
                try:
                    f(*a)
                except Exception as e:
                    if type(e).__name__ == 'Unsupported':
                        raise
        for o in outs:      # the results belong to the caller
            for k in list(o):
                o[k] = 7.0
            o.clear()
        after = state(W2, env)
        for k in before:
            env.true('%s not modified' % k, before[k] == after[k])
        c, p = dict(C), None if par is None else dict(par)
        got = f(c, scale, p)
        env.true('coefficients not modified (last call)', unchanged(c, C))
        env.true('parameters not modified (last call)', p is None or unchanged(p, par))
        env.true('defaults not modified (last call)', state(W2, env) == before)
        env.same_keys('coefficients', got, want)
        env.eqdict('%s independent of history %d' % (' '.join(route), h), got, want)
    run.__doc__ = '%s: result after four kinds of history equals the result in a fresh process; arguments and defaults untouched' % ' '.join(route)
    return Harness(run, 'pure_' + '_'.join(route).replace(' ', '').replace('-', ''), max_seconds=400)


ALT = {'m_W': 79.7, 'm_Z': 91.1, 'GF': 1.1e-5, 'alpha_e': 1 / 127., 'Vus': 0.225, 'Vub': 0.0035, 'Vcb': 0.042, 'gamma': 0.9,
       'm_b': 4.2, 'm_s': 0.09, 'alpha_s': 0.117, 'm_e': 5.2e-4, 'm_mu': 0.105, 'm_tau': 1.75}


def neighbours(route):
    """one call after another, each differing from the first in one thing only"""
    def run(env):
        C = coeffs(env, route, '', 60, 1)
        k0 = sorted(C)[0]
        real = names(*route[:2])[k0]
        other = env.real('other') if real else env.cplx('other')
        calls = [(dict(C), 91.2, dict(SMPAR))]
        calls += [(dict(C), 91.2, dict(SMPAR, **{q: ALT[q]})) for q in SMPAR]
        calls += [(dict(C), 91.2, {k: v for k, v in SMPAR.items() if k != q}) for q in ('gamma', 'alpha_s', 'GF')]
        calls += [(dict(C), 120., dict(SMPAR)), (dict(C, **{k0: other}), 91.2, dict(SMPAR)),
                  ({k: v for k, v in C.items() if k != k0}, 91.2, dict(SMPAR)), (dict(C), 91.2, None)]

        def fresh():
            W = env._W = env.fresh_package()
            if env.sym:
                env.pkg = env.last_pkg
            bases.register(W)
            return func(W, route)
        want = [dict(fresh()(dict(c), s, None if p is None else dict(p))) for c, s, p in calls]
        f = fresh()
        for i, (c, s, p) in enumerate(calls):
            got = f(c, s, p)
            env.same_keys('coefficients', got, want[i])
            env.eqdict('%s call %d independent of the calls before' % (' '.join(route), i), got, want[i])
    run.__doc__ = ('%s: calls that differ in a single parameter, the scale or a single coefficient from an earlier call '
                   'give what they give in a fresh process' % ' '.join(route))
    return Harness(run, 'near_' + '_'.join(route).replace(' ', '').replace('-', ''), max_seconds=400)


OTHER = {3: [('WET', 'JMS', 'Bern'), ('WET', 'flavio', 'Bern')], 4: [('WET', 'JMS', 'flavio'), ('WET', 'JMS', 'formflavor')]}
HARNESSES = [purity(r, OTHER[len(r)] + ([('SMEFT', 'Warsaw', 'Warsaw mass')] if r[0] == 'SMEFT' else [])) for r in ROUTES]
HARNESSES += [neighbours(r) for r in ROUTES]
ASSUMPTIONS = ASSUME
BOUNDS = ('Every registered translator and matcher; every ninth (SMEFT: every 36th) coefficient symbolic; WET conversions with symbolic scale '
          'and parameters; histories of up to five calls of four kinds (other input and parameters, other scale, other conversions, failing calls), '
          'each followed by overwriting the results; default or user parameters in the last call. Sequences of 22 calls with every 60th '
          '(SMEFT: every 240th) coefficient symbolic that differ from the first in one parameter, the scale, one coefficient or no parameters.')
