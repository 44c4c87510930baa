"""Flavour rotations of the SMEFT coefficients."""
import itertools
import bases
import common
from common import conj
from vp import Harness

# field content, index by index; lower-case bar* = barred field
FIELDS = {}


def _f(spec, *names):
    for n in names:
        FIELDS[n] = spec.split()


_f('l* e', 'ephi', 'eW', 'eB'); _f('q* u', 'uphi', 'uW', 'uB', 'uG'); _f('q* d', 'dphi', 'dW', 'dB', 'dG')
_f('l* l', 'phil1', 'phil3'); _f('q* q', 'phiq1', 'phiq3'); _f('e* e', 'phie'); _f('u* u', 'phiu')
_f('d* d', 'phid'); _f('u* d', 'phiud'); _f('l l', 'llphiphi')
_f('l* l l* l', 'll'); _f('q* q q* q', 'qq1', 'qq3'); _f('l* l q* q', 'lq1', 'lq3')
_f('e* e e* e', 'ee'); _f('u* u u* u', 'uu'); _f('d* d d* d', 'dd'); _f('e* e u* u', 'eu'); _f('e* e d* d', 'ed')
_f('u* u d* d', 'ud1', 'ud8'); _f('l* l e* e', 'le'); _f('l* l u* u', 'lu'); _f('l* l d* d', 'ld')
_f('q* q e* e', 'qe'); _f('q* q u* u', 'qu1', 'qu8'); _f('q* q d* d', 'qd1', 'qd8')
_f('l* e d* q', 'ledq'); _f('q* u q* d', 'quqd1', 'quqd8'); _f('l* e q* u', 'lequ1', 'lequ3')
_f('d u q l', 'duql'); _f('q q u e', 'qque'); _f('q q q l', 'qqql'); _f('d u u e', 'duue')
assert set(FIELDS) == set(bases.SMEFT)


def rotate(C, n, U):
    """reference: C'[a..] = sum_i prod_k (U_k[i_k, a_k] or its conjugate) C[i..], index by index"""
    spec = FIELDS[n]
    k = len(spec)
    T = {i: C[i] for i in itertools.product(range(3), repeat=k)}
    for pos, f in enumerate(spec):
        M = U[f[0]]
        if M is None:
            continue
        S = {}
        for i in T:
            s = 0
            for j in range(3):
                m = M[j][i[pos]]
                s = s + (conj(m) if f.endswith('*') else m) * T[i[:pos] + (j,) + i[pos + 1:]]
            S[i] = s
        T = S
    return T


def rot(ops, tag, free, tier='quick'):
    def run(env):
        S = env.module('wcxf.util.smeftutil')
        C = {n: common.array(env, n, (3,) * len(FIELDS[n])) for n in ops}
        before = {n: common.snapshot(C[n]) for n in ops}
        U, lists = {}, {}
        import numpy as np
        for f in 'qudle':
            if f in free:
                U[f] = common.array(env, 'U' + f, (3, 3))
                lists[f] = [[U[f][i, j] for j in range(3)] for i in range(3)]
            else:
                U[f] = np.eye(3)
                lists[f] = None
        out = S.flavor_rotation(C, U['q'], U['u'], U['d'], U['l'], U['e'])
        env.same_keys('coefficients', out, ops)
        for n in ops:
            want = rotate(before[n], n, lists)
            for i in itertools.product(range(3), repeat=len(FIELDS[n])):
                env.eq('%s rotated by %s' % (bases.nm(n, i), free), out[n][i], want[i])
            env.eq('input %s kept' % n, C[n], before[n])
    run.__doc__ = 'rotation of %s by arbitrary complex matrices on the fields %s' % (', '.join(ops), free)
    return Harness(run, tag, tier=tier, max_seconds=400)


def bosonic(env):
    """coefficients without flavour indices do not change"""
    S = env.module('wcxf.util.smeftutil')
    import numpy as np
    C = {k: env.real(k) for k in bases.SM0}
    U = [common.array(env, 'U%d' % i, (3, 3)) for i in range(5)]
    out = S.flavor_rotation(C, *U)
    env.same_keys('coefficients', out, C)
    for k in C:
        env.eq(k, out[k], C[k])


two = sorted(bases.TWO)
four = sorted(k for k in bases.SMEFT if k not in bases.TWO)
has = lambda f: [n for n in four if any(x[0] == f for x in FIELDS[n])]
HARNESSES = [rot(two, 'two_all', 'qudle')] + [rot(four, 'four_' + f, f) for f in 'udle'] + \
            [rot(four, 'four_q', 'q')] + \
            [rot([n for n in four if 'q' not in ''.join(FIELDS[n])], 'four_noq_ud', 'ud', 'thorough'),
             rot(four, 'four_le', 'le', 'thorough'), rot(four, 'four_qe', 'qe', 'thorough'),
             rot(four, 'four_ql', 'ql', 'thorough'), Harness(bosonic)]
ASSUMPTIONS = ['floating point arithmetic is treated as real arithmetic with a relative tolerance of 1e-9 per equation']
BOUNDS = ('Every entry of every 2- and 4-fermion coefficient array symbolic and complex; the 3x3 matrices on the fields q, u, d, l, e '
          'symbolic without assuming unitarity (quick: all five at once for two-fermion operators, one at a time for four-fermion '
          'operators; thorough: pairs).')
