"""Warsaw <-> Warsaw up."""
import itertools
import bases
import common
from common import conj
from vp import Harness
from props.c09 import rotate, FIELDS
from props.wet_common import ASSUME

CKM = ['Vus', 'Vub', 'Vcb', 'gamma']


class Orbit:
    """array view of independent coefficients"""

    def __init__(self, n, d):
        self.n, self.d = n, d
        self.rep = {}
        if n == 'qqql':
            return
        for ind, real in bases.smeft_reps(n):
            for i, c in bases.orbit(ind, bases.SMEFT[n]):
                if i not in self.rep or not c:
                    self.rep.setdefault(i, (ind, c))

    def __getitem__(self, i):
        if self.n == 'qqql':
            return self.qqql(i)
        ind, c = self.rep[i]
        v = self.d.get(bases.nm(self.n, ind), 0)
        return conj(v) if c else v

    def qqql(self, i):
        p, r, s, t = i
        g = lambda a, b, c: self.d.get('qqql_%d%d%d%d' % (a + 1, b + 1, c + 1, t + 1), 0)
        if ''.join(map(str, i[:3])) not in bases.QQQL_DEP:
            return g(p, r, s)
        # symmetry relations C_prst + C_rpst = C_sprt + C_srpt solved for the dependent entries
        return {(1, 0, 0): lambda: g(0, 0, 1), (1, 1, 0): lambda: g(0, 1, 1), (2, 0, 0): lambda: g(0, 0, 2),
                (2, 1, 1): lambda: g(1, 1, 2), (2, 2, 0): lambda: g(0, 2, 2), (2, 2, 1): lambda: g(1, 2, 2),
                (2, 0, 1): lambda: g(1, 2, 0) + g(1, 0, 2) - g(0, 2, 1),
                (2, 1, 0): lambda: g(0, 2, 1) + g(0, 1, 2) - g(1, 2, 0)}[p, r, s]()


def reference(C, V, up):
    """rotate the left-handed quark doublet only: by V^dagger to go up-aligned, by V to go back"""
    Uq = [[conj(V[j][i]) for j in range(3)] for i in range(3)] if up else V
    U = {'q': Uq, 'u': None, 'd': None, 'l': None, 'e': None}
    out = {k: C[k] for k in bases.SM0 if k in C}
    given = {k.split('_')[0] for k in C if '_' in k}
    for n in sorted(given):
        T = rotate(Orbit(n, C), n, U)
        for ind, real in bases.smeft_reps(n):
            out[bases.nm(n, ind)] = T[ind]
    return out


def translate(direction, ops, mode, tag, tier='quick'):
    up = direction == 'up'
    frm, to = ('Warsaw', 'Warsaw up') if up else ('Warsaw up', 'Warsaw')

    def run(env):
        W = env.W
        bases.register(W, {('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up')})
        C = common.wcs(env, 'SMEFT', frm, only=lambda k: k.split('_')[0] in ops)
        par = None
        if mode == 'full':
            par = common.params(env, CKM, box=common.ZBOX)
        elif mode == 'partial':
            par = common.params(env, ['Vus', 'Vub'], box=common.ZBOX)
        scale = env.real('scale', 100., 2000.)
        ckeys = dict(C)
        got = W.Translator['SMEFT', frm, to].function(C, scale, dict(par) if par is not None else None)
        env.true('input not modified', set(C) == set(ckeys) and all(C[k] is ckeys[k] for k in C))
        p = dict(common.DEFAULTS, **(par or {}))
        want = reference(C, common.ckm(env, p), up)
        env.eqdict('%s -> %s (%s)' % (frm, to, mode), got, want)
        env.true('only coefficients of the target basis', set(got) <= set(bases.keys('SMEFT', to)))
    run.__doc__ = '%s -> %s against the index-by-index rotation; %s; parameters: %s' % (frm, to, ', '.join(ops), mode)
    return Harness(run, tag, tier=tier, max_seconds=300)


def alone(direction, size, part, n, tier='quick'):
    """a few coefficients of one operator alone, everything else missing; default CKM matrix"""
    up = direction == 'up'
    frm, to = ('Warsaw', 'Warsaw up') if up else ('Warsaw up', 'Warsaw')

    def run(env):
        W = env.W
        bases.register(W, {('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up')})
        f = W.Translator['SMEFT', frm, to].function
        V = common.ckm(env, dict(common.DEFAULTS))
        real = bases.keys('SMEFT', frm)
        for i, o in enumerate(sorted({k.split('_')[0] for k in real})):
            if i % n != part:
                continue
            names = [k for k in real if k.split('_')[0] == o]
            m = -(-len(names) // size)
            for j in range(m):
                C = {k: env.real(k) if real[k] else env.cplx(k) for k in names[j::m]}
                got, want = f(dict(C), 91.2, None), reference(C, V, up)
                for k in set(got) | set(want):
                    x, y = got.get(k, 0), want.get(k, 0)
                    if hasattr(x, 't') or hasattr(y, 't') or x != y:
                        env.eq('%s -> %s: %s with only %s given' % (frm, to, k, sorted(C)), x, y)
    run.__doc__ = alone.__doc__ + ', %s (part %d of %d)' % (direction, part, n)
    return Harness(run, '%s_%s_%d' % ('alone' if size == 1 else 'few', direction, part), tier=tier, abs_=1e-15)


def roundtrip(point, order, ops, tag, tier='quick'):
    def run(env):
        W = env.W
        bases.register(W, {('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up')})
        a, b = ('Warsaw', 'Warsaw up') if order else ('Warsaw up', 'Warsaw')
        C = common.wcs(env, 'SMEFT', a, only=lambda k: k.split('_')[0] in ops)
        par = dict(point) if point else None
        x = W.Translator['SMEFT', a, b].function(dict(C), 91.0, par)
        y = W.Translator['SMEFT', b, a].function(dict(x), 91.0, par)
        env.eqdict('%s -> %s -> %s' % (a, b, a), y, C)
    run.__doc__ = 'round trip is the identity (CKM parameters %s)' % (point or 'default')
    return Harness(run, tag, tier=tier, max_seconds=300, abs_=1e-9)


QOPS = [n for n in FIELDS if 'q' in ''.join(FIELDS[n])]
NOQ = [n for n in FIELDS if n not in QOPS]
Q4 = sorted(n for n in QOPS if len(FIELDS[n]) == 4)
A = list(bases.SM0) + [n for n in FIELDS if len(FIELDS[n]) == 2] + NOQ
PT = {'Vus': 0.23, 'Vub': 0.004, 'Vcb': 0.041, 'gamma': 1.1}
PT2 = {'Vus': 0.21, 'Vub': 0.003, 'Vcb': 0.044, 'gamma': -0.7}
heavy = ['qq1', 'qq3', 'qqql']
light = [n for n in Q4 if n not in heavy]
HARNESSES = [translate('up', A, 'full', 'up_simple'), translate('down', A, 'full', 'down_simple'),
             translate('up', light, 'full', 'up_q'), translate('down', light, 'full', 'down_q'),
             translate('up', heavy, 'full', 'up_qqqq'), translate('down', heavy, 'full', 'down_qqqq'),
             translate('up', A + ['lq1'], 'none', 'up_default'), translate('down', A + ['qe'], 'partial', 'down_partial'),
             translate('up', A, 'partial', 'up_partial'), translate('down', A, 'none', 'down_default'),
             roundtrip(PT, True, A + Q4, 'roundtrip_Warsaw'), roundtrip(PT, False, A + Q4, 'roundtrip_up'),
             roundtrip(None, True, A + Q4, 'roundtrip_default', 'thorough'),
             roundtrip(PT2, True, A + Q4, 'roundtrip_pt2', 'thorough')]
HARNESSES += [alone(_d, 6, i, 4) for _d in ('up', 'down') for i in range(4)]
HARNESSES += [alone(_d, 1, i, 8, 'thorough') for _d in ('up', 'down') for i in range(8)]
ASSUMPTIONS = ASSUME + ['round trips: the CKM matrix at the stated concrete parameter points']
BOUNDS = ('All coefficients of the Warsaw basis symbolic; CKM matrix symbolic (any complex matrix) in the reference comparison, with '
          'symbolic user parameters, a partial set of them, or none; up to 6 coefficients of one operator (thorough: each coefficient) alone; round trips at up to three concrete CKM points.')
