"""Shared pieces of the harnesses: parameter boxes, inputs, reference helpers."""
from fractions import Fraction
import math
import bases

# boxes of the physical parameters (stated bounds)
BOX = {
    'm_W': (79., 82.), 'm_Z': (90., 92.), 'GF': (1.0e-5, 1.3e-5), 'alpha_e': (1 / 140., 1 / 120.),
    'alpha_s': (0.11, 0.125), 'Vus': (0.15, 0.3), 'Vub': (2e-3, 6e-3), 'Vcb': (0.03, 0.05),
    'gamma': (0.1, 3.), 'm_b': (3.9, 4.5), 'm_s': (0.07, 0.13), 'm_e': (4e-4, 6e-4),
    'm_mu': (0.09, 0.12), 'm_tau': (1.6, 1.9),
}
SCALE = (2.5, 180.)


# no normalisation by CKM elements in the SMEFT: they may vanish (Vus and gamma may not,
# the CKM matrix of ckmutil is singular there)
ZBOX = dict(BOX, Vub=(-6e-3, 6e-3), Vcb=(-0.05, 0.05))


def params(env, names=None, tag='p_', box=BOX):
    """symbolic parameter dictionary"""
    return {k: env.real(tag + k, *box[k]) for k in (names or box)}


def defaults(env):
    """the documented constants (harness copy)"""
    return dict(DEFAULTS)


DEFAULTS = {
    'm_W': 80.385, 'm_Z': 91.1876, 'GF': 1.1663787e-5, 'alpha_e': 1 / 127.9, 'alpha_s': 0.1185,
    'Vus': 0.2243, 'Vub': 3.62e-3, 'Vcb': 4.221e-2, 'gamma': 1.27, 'm_b': 4.18, 'm_s': 0.095,
    'm_e': 0.0005109989461, 'm_mu': 0.1056583745, 'm_tau': 1.77686,
}


def wcs(env, eft, basis, tag='', only=None):
    """every Wilson coefficient of a basis as a symbolic number"""
    d = {}
    for k, real in bases.keys(eft, basis).items():
        if only is not None and not only(k):
            continue
        d[k] = env.real(tag + k) if real else env.cplx(tag + k)
    return d


def conj(x):
    return x.conjugate() if hasattr(x, 'conjugate') else x


def get_params(env, scale, par, f=5):
    """what the translators should use: the documented defaults overridden by
    the user's, b and s mass and alpha_s run to the scale with f flavours"""
    p = defaults(env)
    p.update(par or {})
    qcd = env.module('wcxf.util.qcd')
    out = dict(p)
    out['m_b'] = qcd.m_b(p['m_b'], scale, f, p['alpha_s'])
    out['m_s'] = qcd.m_s(p['m_s'], scale, f, p['alpha_s'])
    out['alpha_s'] = qcd.alpha_s(scale, f, p['alpha_s'])
    return out


def ckm(env, p):
    """3x3 CKM matrix as nested list (same stand-in as the code sees)"""
    if env.sym:
        env.W
        m = env.pkg.stubs['ckmutil.ckm'].ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
    else:
        import ckmutil.ckm
        m = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
    return [[m[i, j] for j in range(3)] for i in range(3)]


def sqrt(x):
    if hasattr(x, 'sqrt') and not isinstance(x, float):
        return x.sqrt()
    return math.sqrt(x)


class Jms:
    """read access to JMS coefficients by any index tuple: redundant entries are
    resolved through the symmetry orbit, missing ones are zero"""

    def __init__(self, C):
        self.C = C
        self.memo = {}

    def __call__(self, op, *ind):
        k = (op, ind)
        if k not in self.memo:
            self.memo[k] = self._get(op, ind)
        return self.memo[k]

    def _get(self, op, ind):
        fields, gens = bases.JMS[op]
        o = bases.orbit(tuple(ind), gens)
        rep = min(i for i, c in o)
        v = self.C.get(bases.nm(op, rep), 0)
        if (rep, False) in o:
            return v
        return conj(v)

    def c(self, op, *ind):
        return conj(self(op, *ind))


def array(env, name, shape, real=False):
    """array of independent symbolic numbers"""
    import itertools
    import numpy as np
    f = env.real if real else env.cplx
    vals = [f(name + '_' + ''.join(str(i + 1) for i in ind)) for ind in itertools.product(*map(range, shape))]
    if env.sym:
        from symx.arrays import mk
        return mk(tuple(shape), vals)
    return np.array(vals).reshape(shape)


def snapshot(a):
    import numpy as np
    return a.copy() if isinstance(a, np.ndarray) else a
