"""Coefficient names with flavour indices <-> arrays."""
import itertools
import bases
import common
from vp import Harness


def shape(n):
    return (3,) * (2 if n in bases.TWO else 4)


def names(n):
    return [bases.nm(n, i) for i in itertools.product(range(3), repeat=len(shape(n)))]


def fn(env, name):
    """translator utility, wherever the translators keep it"""
    return getattr(env.module('wcxf.translators.smeft'), name)


def to_names(ops, tag):
    def run(env):
        C = {n: common.array(env, n, shape(n)) for n in ops}
        C['phiWB'] = env.real('phiWB')
        before = {k: common.snapshot(v) for k, v in C.items()}
        d = fn(env, 'arrays2wcxf')(C)
        env.same_keys('names', d, [x for n in ops for x in names(n)] + ['phiWB'])
        for n in ops:
            for ind in itertools.product(range(3), repeat=len(shape(n))):
                env.eq(bases.nm(n, ind), d[bases.nm(n, ind)], before[n][ind])
        env.eq('phiWB', d['phiWB'], before['phiWB'])
        back = fn(env, 'wcxf2arrays')(d)
        env.same_keys('back', back, C)
        for k in C:
            env.eq('back ' + k, back[k], before[k])
            env.eq('input kept ' + k, C[k], before[k])
        d2 = fn(env, 'arrays2wcxf')(back)
        env.eqdict('names -> arrays -> names', d2, d)
        env.same_keys('names again', d2, d)
    run.__doc__ = 'arrays -> names -> arrays is the identity: ' + ', '.join(ops)
    return Harness(run, tag)


def from_names(ops, tag):
    def run(env):
        # only some entries given, in unsorted order; the rest is zero. Integers, real and complex numbers are mixed, and
        # each kind comes first for some of the operators
        d = {}
        for i, n in enumerate(ops):
            for j, x in enumerate(sorted(names(n), key=lambda s: s[::-1])):
                if j % 3 != 1:
                    k = (i + j) % 5
                    d[x] = 1 + j if k == 1 else env.real(x) if k == 3 else env.cplx(x)
        d['phiWB'] = env.real('phiWB')
        keys = list(d)
        C = fn(env, 'wcxf2arrays')(d)
        env.same_keys('arrays', C, list(ops) + ['phiWB'])
        for n in ops:
            for ind in itertools.product(range(3), repeat=len(shape(n))):
                env.eq('entry ' + bases.nm(n, ind), C[n][ind], d.get(bases.nm(n, ind), 0))
        env.true('input not modified', list(d) == keys)
    run.__doc__ = 'partial name dictionaries: absent entries are zero: ' + ', '.join(ops)
    return Harness(run, tag)


def one_operator(ops, tag):
    def run(env):
        for n in ops:
            d = {bases.nm(n, i): (env.real if r else env.cplx)(bases.nm(n, i)) for i, r in bases.smeft_reps(n)}
            other = {'phi' + n + '_11': 7.0, 'G': 3.0, 'phiq1_11' if n != 'phiq1' else 'phiq3_11': 5.0}
            A = fn(env, 'smeft_toarray')(n, dict(d, **other))
            env.true(n + ' shape', tuple(A.shape) == shape(n))
            for i, r in bases.smeft_reps(n):
                env.eq('element ' + bases.nm(n, i), A[i], d[bases.nm(n, i)])
            back = fn(env, 'smeft_fromarray')(n, A)
            env.same_keys(n + ' names', back, names(n))
            for i in itertools.product(range(3), repeat=len(shape(n))):
                env.eq('name ' + bases.nm(n, i), back[bases.nm(n, i)], A[i])
    run.__doc__ = 'one operator: independent entries -> array -> all entries: ' + ', '.join(ops)
    return Harness(run, tag)


two = sorted(bases.TWO)
four = sorted(k for k in bases.SMEFT if k not in bases.TWO)
HARNESSES = [to_names(two + four[:6], 'to_a'), to_names(four[6:18], 'to_b'), to_names(four[18:], 'to_c'),
             from_names(two + four, 'from_all'), one_operator(two, 'one_two'), one_operator(four, 'one_four')]
ASSUMPTIONS = ['copies only: no rounding involved']
BOUNDS = 'All 64 SMEFT coefficient names, every array entry an independent symbolic complex number (also mixed with real numbers and integers).'
