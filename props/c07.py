"""Symmetrisation of SMEFT coefficient arrays."""
import itertools
import bases
import common
from common import conj
from vp import Harness

FOUR = [k for k in bases.SMEFT if k not in bases.TWO]


def relations(name, a, dims):
    """index-symmetry relations as (label, lhs, rhs)"""
    if name == 'qqql':
        for p, r, s, t in itertools.product(range(3), repeat=4):
            yield 'qqql[%d%d%d%d]' % (p, r, s, t), a[p, r, s, t] + a[r, p, s, t], a[s, p, r, t] + a[s, r, p, t]
        return
    for ind in itertools.product(*[range(d) for d in dims]):
        for perm, c in bases.SMEFT[name]:
            j = tuple(ind[q] for q in perm)
            yield '%s%s ~ %s' % (name, list(ind), list(j)), a[ind], conj(a[j]) if c else a[j]


def run_for(names, tag):
    def run(env):
        U = env.module('wcxf.util.smeftutil')
        C = {}
        for n in names:
            shape = (3,) * (2 if n in bases.TWO else 4)
            C[n] = common.array(env, n, shape)
        before = {n: common.snapshot(a) for n, a in C.items()}
        S = U.symmetrize(C)
        env.same_keys('coefficients', S, C)
        for n in names:
            dims = C[n].shape
            env.true(n + ' shape', tuple(S[n].shape) == tuple(dims))
            env.eq(n + ' input not modified', C[n], before[n])
            for lab, l, r in relations(n, S[n], dims):
                env.eq('symmetry ' + lab, l, r)
            for ind, real in bases.smeft_reps(n):
                v = before[n][ind]
                env.eq('independent entry %s%s kept' % (n, list(ind)), S[n][ind], v.real if real else v)
        again = U.symmetrize(S)
        for n in names:
            env.eq('idempotent ' + n, again[n], S[n])
    run.__doc__ = 'symmetrize on %s' % ', '.join(names)
    return Harness(run, tag)


def bosonic(env):
    """coefficients without flavour indices: real part is kept"""
    U = env.module('wcxf.util.smeftutil')
    C = {k: env.cplx(k) for k in bases.SM0}
    S = U.symmetrize(C)
    env.same_keys('coefficients', S, C)
    for k in C:
        env.eq(k, S[k], C[k].real)


def missing(env):
    """missing coefficients are completed with zeros of the right shape; present ones are kept"""
    U = env.module('wcxf.util.smeftutil')
    C = {'phil1': common.array(env, 'phil1', (3, 3)), 'll': common.array(env, 'll', (3,) * 4), 'W': env.real('W')}
    drop = env.choice('drop', 4)
    C = {k: v for i, (k, v) in enumerate(C.items()) if i != drop}
    keys = set(C)
    out = U.add_missing(C)
    env.true('input not modified', set(C) == keys)
    allk = list(bases.SM0) + list(bases.SMEFT)
    env.same_keys('completed', out, allk)
    import numpy as np
    for k in allk:
        if k in C:
            env.eq(k + ' kept', out[k], C[k])
        elif k in bases.SM0:
            env.true(k + ' scalar', np.ndim(out[k]) == 0)
            env.eq(k + ' zero', out[k], 0)
        else:
            shape = (3,) * (2 if k in bases.TWO else 4)
            env.true(k + ' shape', tuple(np.shape(out[k])) == shape)
            for ind in itertools.product(range(3), repeat=len(shape)):
                env.eq('%s%s zero' % (k, list(ind)), out[k][ind], 0)


two = sorted(bases.TWO)
four = sorted(FOUR)
HARNESSES = [run_for(two, 'two_fermion')] + [run_for(four[i::4], 'four_fermion_%d' % i) for i in range(4)] + \
    [Harness(bosonic), Harness(missing)]
ASSUMPTIONS = ['floating point arithmetic is treated as real arithmetic (the code only copies, conjugates and adds up to 3 entries)']
BOUNDS = 'All 3x3 and 3x3x3x3 arrays of complex numbers (every entry independent and symbolic), for all 64 SMEFT coefficient names.'
