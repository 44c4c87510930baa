"""Warsaw -> Warsaw mass."""
import itertools
import bases
import common
from vp import Harness
from props.wet_common import ASSUME
from props.c10 import CKM

UX = ['uphi', 'uG', 'uW', 'uB']


def msvd(env, M):
    """singular values as the code's diagonalisation package defines them (stand-in shared with the code)"""
    import numpy as np
    if env.sym:
        from symx.arrays import mk
        return env.pkg.stubs['ckmutil.diag'].msvd(mk((3, 3), [M[i][j] for i in range(3) for j in range(3)]))[1]
    import ckmutil.diag
    return ckmutil.diag.msvd(np.array(M, dtype=complex))[1]


def run_mode(mode, subset=None):
    def run(env):
        W = env.W
        bases.register(W, {('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw mass')})
        C = common.wcs(env, 'SMEFT', 'Warsaw', only=subset)
        par = common.params(env, CKM, box=common.ZBOX) if mode == 'full' else (
            common.params(env, ['Vus', 'gamma'], box=common.ZBOX) if mode == 'partial' else None)
        keep = dict(C)
        got = W.Translator['SMEFT', 'Warsaw', 'Warsaw mass'].function(
            C, env.real('scale', 100., 2000.), dict(par) if par is not None else None)
        env.true('input not modified', set(C) == set(keep) and all(C[k] is keep[k] for k in C))
        C = keep
        V = common.ckm(env, dict(common.DEFAULTS, **(par or {})))
        want = {k: v for k, v in C.items() if k.split('_')[0] not in UX + ['llphiphi']}
        for n in UX:
            for i, j in itertools.product(range(3), repeat=2):
                s = 0
                for k in range(3):
                    s = s + V[i][k] * C.get(bases.nm(n, (k, j)), 0)
                want[bases.nm(n, (i, j))] = s
        g = lambda i, j: C.get(bases.nm('llphiphi', (min(i, j), max(i, j))), 0)
        S = msvd(env, [[g(i, j) for j in range(3)] for i in range(3)])
        for i in range(3):
            want[bases.nm('llphiphi', (i, i))] = S[i]
        env.eqdict('Warsaw -> Warsaw mass', got, want)
    run.__doc__ = ('up-type dipoles and Yukawa-like coefficients rotated by the CKM matrix, Weinberg operator replaced by its '
                   'singular values, everything else unchanged; parameters: ' + mode)
    return run


def singles(part, n):
    """each coefficient alone (and in some pairs), all others missing"""
    keys = [k for k in bases.keys('SMEFT', 'Warsaw') if k.split('_')[0] in UX + ['llphiphi']]
    sets = [{k} for k in keys] + [{k, keys[(i * 7 + 3) % len(keys)], 'dG_11', 'G'} for i, k in enumerate(keys)] + [
        {'G'}, {'phiud_12'}, {'ll_1221'}, {'dW_33'}, set()]
    runs = [run_mode('none', lambda k, s=s: k in s) for s in sets[part::n]]

    def run(env):
        for r in runs:
            r(env)
    run.__doc__ = singles.__doc__ + ' (%d of %d)' % (part, n)
    return Harness(run, 'singles_%d' % part)


only = lambda *n: (lambda k: k.split('_')[0] in n)
HARNESSES = [Harness(run_mode('full'), 'full'), Harness(run_mode('partial'), 'partial'), Harness(run_mode('none'), 'defaults'),
             Harness(run_mode('full', only('uphi', 'phil1', 'W')), 'subset'),
             Harness(run_mode('none', only('llphiphi', 'uW', 'uB', 'dW')), 'subset2'),
             Harness(run_mode('full', lambda k: k in ('uG_12', 'uG_33', 'llphiphi_11', 'llphiphi_23', 'ee_1112')), 'sparse')] + [
    singles(i, 4) for i in range(4)]
ASSUMPTIONS = ASSUME + ['the singular value decomposition (external package ckmutil) is an uninterpreted function of the matrix entries']
BOUNDS = ('All coefficients of the Warsaw basis symbolic (also three subsets, each rotated or diagonalised coefficient alone, and pairs, with the rest missing); CKM parameters symbolic, partial or default.')
