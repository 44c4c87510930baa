"""Inheritance of bases."""
import copy
from vp import Harness


def sect(env, tag, sectors, maybe_empty=()):
    """any subset of the sectors, each with coefficients or (some) empty"""
    d = {}
    for s in sectors:
        if env.flag('%s%s' % (tag, s)):
            d[s] = {} if s in maybe_empty and env.flag('%s%s empty' % (tag, s)) else {
                '%s_%s' % (tag, s): {'tex': tag}, 'common_' + s: {'real': True}}
    return d


def dicts(x):
    return {k: dict(v) for k, v in x.items()}


def child(env):
    """child = parent's sectors, replaced sector-wise by its own; parent, siblings and inputs untouched"""
    W = env.W
    P = sect(env, 'p', ('s1', 's2'))
    C1 = sect(env, 'c', ('s1', 's3'), ('s1',))
    C2 = sect(env, 'd', ('s1', 's2'), ('s1',))
    p_in, c_in, d_in = copy.deepcopy(P), copy.deepcopy(C1), copy.deepcopy(C2)
    W.Basis('F', 'P', {'s1': {'wrong': {}}, 's9': {'wrong2': {}}})
    par = W.Basis('E', 'P', P)
    if env.flag('query_parent_first'):
        par.all_wcs
    if env.flag('by_load'):
        ch = W.Basis.load(__import__('json').dumps({'eft': 'E', 'basis': 'C', 'sectors': C1, 'parent': 'P'}))
    else:
        ch = W.Basis('E', 'C', C1, parent='P')
    if env.flag('grand'):
        d = W.Basis('E', 'D', C2, parent='C')
        want_d = {**p_in, **c_in, **d_in}
    else:
        d = W.Basis('E', 'D', C2, parent='P')
        want_d = {**p_in, **d_in}
    want_c = {**p_in, **c_in}
    env.true('child sectors', dicts(ch.sectors) == want_c)
    env.true('second child sectors', dicts(d.sectors) == want_d)
    env.true('parent unchanged', dicts(par.sectors) == p_in and dicts(W.Basis['E', 'P'].sectors) == p_in)
    env.true('inputs unchanged', (P, C1, C2) == (p_in, c_in, d_in))
    for o, w in ((ch, want_c), (d, want_d), (par, p_in)):
        env.true('%s: all coefficients' % o.basis, sorted(o.all_wcs) == sorted(k for s in w.values() for k in s))
        env.true('%s: registered' % o.basis, W.Basis['E', o.basis] is o)
    env.true('names', (ch.eft, ch.basis, ch.parent) == ('E', 'C', 'P'))
    # adding a sector to the child later does not leak into the parent
    ch.sectors['new'] = {'n': {}}
    env.true('no aliasing of the sector table', dicts(par.sectors) == p_in and dicts(d.sectors) == want_d)


def missing(env):
    """a missing parent is a ValueError and registers nothing"""
    W = env.W
    have = env.choice('have', 4)
    if have == 1:
        W.Basis('F', 'P', {'s1': {'x': {}}})
    if have == 2:
        W.Basis('E', 'Q', {'s1': {'x': {}}})
    if have == 3:
        W.Basis('E', 'P', {'s1': {'x': {}}})
        del W.Basis['E', 'P']
    old = None
    if env.flag('child_existed'):
        old = W.Basis('E', 'C', {'s1': {'old': {}}})
    if env.flag('self'):
        if old is None:
            env.raises('parent missing', ValueError, W.Basis, 'E', 'C', {'s2': {}}, parent='C')
    else:
        env.raises('parent missing', ValueError, W.Basis, 'E', 'C', {'s2': {}}, parent='P')
    try:
        got = W.Basis['E', 'C']
    except (KeyError, AttributeError):
        got = None
    env.true('no half-defined basis is registered', got is old)
    if old is not None:
        env.true('earlier definition intact', old.all_wcs == ['old'])


def redefine(env):
    """redefining the parent affects only children defined afterwards"""
    W = env.W
    W.Basis('E', 'P', {'s1': {'a': {}}})
    c1 = W.Basis('E', 'C', {'s2': {'b': {}}}, parent='P')
    if env.flag('query'):
        c1.all_wcs
    if env.flag('delete'):
        del W.Basis['E', 'P']
    W.Basis('E', 'P', {'s1': {'z': {}}})
    c2 = W.Basis('E', 'C2', {'s2': {'b': {}}}, parent='P')
    env.true('old child', sorted(c1.all_wcs) == ['a', 'b'])
    env.true('new child', sorted(c2.all_wcs) == ['b', 'z'])
    wc = W.WC('E', 'C', 1, {'a': 1})
    W.EFT('E', {'s1': {}, 's2': {}})
    wc.validate()
    env.raises('name of the new parent not valid in the old child', AssertionError, W.WC('E', 'C', 1, {'z': 1}).validate)


HARNESSES = [Harness(child, max_paths=3000), Harness(missing), Harness(redefine)]
ASSUMPTIONS = ['sector and coefficient names from small fixed sets']
BOUNDS = ('Any subsets of 2 sectors each for parent, child and a second child or grandchild (3 sectors in total), overriding sectors also empty; all combinations of prior queries, '
          'construction by call or from a file.')
