"""Behaviour of WC.translate / WC.match around the registered conversion function."""
from vp import Harness


def _value(env, name, k):
    if k == 0:
        v = env.fp(name)
        return v, v, 0.0
    if k == 1:
        v = env.fp_complex(name)
        return v, v.real, v.imag
    v = env.fp_complex(name, np=True)
    return v, v.real, v.imag


def wrapper(env):
    """result carries target EFT/basis, same scale, exactly the non-zero values; function sees the decoded
    numbers, the scale and the user's parameters; the input object is unchanged"""
    W = env.W
    match = env.flag('match')
    calls = []
    o1, r1, i1 = _value(env, 'o1', env.choice('k1', 3))
    o2, r2, i2 = _value(env, 'o2', env.choice('k2', 2))
    a, b, s = env.fp('a'), env.fp('b'), env.fp('s')
    npar = env.choice('par', 3)
    par = [None, {}, {'alpha_s': env.fp('as')}][npar]
    par_items = None if par is None else dict(par)

    def fn(C, scale, parameters):
        calls.append((dict(C), scale, parameters))
        return {'o2': o2, 'o1': o1, 'zero': 0}
    if match:
        W.Matcher('E', 'B1', 'F', 'B2', fn)
        want = ('F', 'B2')
        # near misses that must not be used
        W.Matcher('E', 'B1', 'E', 'B2', None)
        W.Matcher('F', 'B1', 'F', 'B2', None)
    else:
        W.Translator('E', 'B1', 'B2', fn)
        W.Translator('F', 'B1', 'B2', None)
        W.Translator('E', 'B2', 'B1', None)
        want = ('E', 'B2')
    vals = {'x': a, 'y': {'Re': a, 'Im': b}}
    wc = W.WC('E', 'B1', s, vals)
    early = env.flag('dict_read_before')
    if early:
        wc.dict
    kw = {} if par is None and env.flag('omit') else {'parameters': par}
    out = wc.match('F', 'B2', **kw) if match else wc.translate('B2', **kw)
    # the function
    env.true('function called exactly once', len(calls) == 1)
    C, sc, p = calls[0]
    env.same_keys('names passed', C, ['x', 'y'])
    env.eq('x passed', C['x'], a)
    env.eq('y.re passed', C['y'].real, a)
    env.eq('y.im passed', C['y'].imag, b)
    env.eq('scale passed', sc, s)
    if par is None:
        env.true('no parameters passed', not p)
    else:
        env.true('parameters are a mapping', isinstance(p, dict))
        env.same_keys('parameters', p, par_items)
        for k in par_items:
            env.eq('parameter ' + k, p[k], par_items[k])
    # the result
    env.true('type', type(out) is W.WC)
    env.true('target eft and basis', (out.eft, out.basis) == want)
    env.eq('scale kept', out.scale, s)
    exp = {}
    for k, v, r, i in (('o1', o1, r1, i1), ('o2', o2, r2, i2)):
        if v != 0:
            exp[k] = (r, i)
    env.same_keys('exactly the non-zero coefficients', out.values, exp)
    env.same_keys('exactly the non-zero coefficients (numbers)', out.dict, exp)
    for k in exp:
        if k in out.dict:
            env.eq(k + ' re', out.dict[k].real, exp[k][0])
            env.eq(k + ' im', out.dict[k].imag, exp[k][1])
    # the input
    env.true('input object unchanged', (wc.eft, wc.basis) == ('E', 'B1') and wc.values is vals and set(vals) == {'x', 'y'}
             and vals['x'] is a and set(vals['y']) == {'Re', 'Im'})
    env.eq('input scale', wc.scale, s)
    env.eq('input x', wc.dict['x'], a)
    env.eq('input y', wc.dict['y'].imag, b)
    env.true('result is a new object', out is not wc)
    if par is not None:
        env.true('user parameters unchanged', set(par) == set(par_items))


def dispatch(env):
    """exactly the registered route is used; a missing route is a ValueError, whatever else is registered"""
    W = env.W
    W.Translator.clear_all()
    W.Matcher.clear_all()
    used = []

    def mk(tag, v):
        def f(C, scale, par):
            used.append(tag)
            return {'k': v}
        return f
    routes = [('E', 'A', 'B'), ('E', 'B', 'A'), ('F', 'A', 'B')]
    mroutes = [('E', 'A', 'F', 'B'), ('E', 'A', 'E', 'B'), ('F', 'A', 'E', 'B')]
    have = {}
    x = env.fp('x')
    for i, r in enumerate(routes):
        if env.flag('t%d' % i):
            W.Translator(*r, mk(r, 1.0 + i))
            have[r] = 1.0 + i
    for i, r in enumerate(mroutes):
        if env.flag('m%d' % i):
            W.Matcher(*r, mk(r, 5.0 + i))
            have[r] = 5.0 + i
    wc = W.WC('E', 'A', env.fp('s'), {'k': x})

    def check(r, call):
        used.clear()
        if r in have:
            out = call()
            env.true('route %s used' % (r,), used == [r])
            env.eq('route %s value' % (r,), out.dict['k'], have[r])
        else:
            env.raises('missing route %s refused' % (r,), ValueError, call)
            env.true('no other route used for %s' % (r,), used == [])
    check(('E', 'A', 'B'), lambda: wc.translate('B'))
    check(('E', 'A', 'C'), lambda: wc.translate('C'))
    check(('E', 'A', 'F', 'B'), lambda: wc.match('F', 'B'))
    check(('E', 'A', 'E', 'B'), lambda: wc.match('E', 'B'))
    check(('E', 'A', 'F', 'A'), lambda: wc.match('F', 'A'))


def errors_propagate(env):
    """an error inside the conversion function is not swallowed or replaced by 'no translator found'"""
    W = env.W
    exc = [KeyError('inner'), AttributeError('inner'), ValueError('inner'), ZeroDivisionError('inner')][env.choice('e', 4)]

    def fn(C, scale, par):
        raise exc
    W.Translator('E', 'A', 'B', fn)
    W.Matcher('E', 'A', 'F', 'B', fn)
    wc = W.WC('E', 'A', env.fp('s'), {'k': 1})
    call = (lambda: wc.match('F', 'B')) if env.flag('match') else (lambda: wc.translate('B'))
    try:
        call()
        env.true('error propagates', False)
    except Exception as e:
        env.true('error propagates unchanged', e is exc)


def same_basis(env):
    """a conversion whose result coincides with its input still gives a new, independent object"""
    W = env.W
    match = env.flag('match')
    a, b, s = env.fp('a'), env.fp('b'), env.fp('s')
    kind = env.choice('kind', 3)

    def fn(C, scale, par):
        return [C, dict(C), {k: v for k, v in C.items() if k == 'x'}][kind]
    if match:
        W.Matcher('E', 'B1', 'E', 'B1', fn)
    else:
        W.Translator('E', 'B1', 'B1', fn)
    vals = {'x': a, 'y': {'Re': a, 'Im': b}}
    wc = W.WC('E', 'B1', s, vals)
    out = wc.match('E', 'B1') if match else wc.translate('B1')
    env.true('type', type(out) is W.WC)
    env.true('target', (out.eft, out.basis) == ('E', 'B1'))
    env.true('result is a new object', out is not wc)
    env.true('result has its own values', out.values is not vals and out.dict is not wc.dict)
    env.eq('scale', out.scale, s)
    exp = {}
    if a != 0:
        exp['x'] = (a, 0.0)
    if kind != 2 and (a != 0 or b != 0):
        exp['y'] = (a, b)
    env.same_keys('coefficients', out.dict, exp)
    for k in exp:
        if k in out.dict:
            env.eq(k + ' re', out.dict[k].real, exp[k][0])
            env.eq(k + ' im', out.dict[k].imag, exp[k][1])
    env.true('input unchanged', wc.values is vals and set(vals) == {'x', 'y'})
    out.values['x'] = 7.0
    env.eq('input x', wc.dict['x'], a)
    env.eq('input y', wc.dict['y'].imag, b)
    env.true('input values', vals['x'] is a)


def stack_of_calls(env):
    """translating the same object repeatedly, or chaining, gives values independent of the history"""
    W = env.W
    x, y = env.fp('x'), env.fp('y')
    W.Translator('E', 'A', 'B', lambda C, s, p: {'k': C.get('k', 0), 'l': C.get('l', 0)})
    W.Translator('E', 'B', 'A', lambda C, s, p: {'k': C.get('k', 0), 'l': C.get('l', 0)})
    wc = W.WC('E', 'A', env.fp('s'), {'k': x, 'l': {'Re': 0, 'Im': y}})
    n = env.choice('n', 3)
    for i in range(n):
        wc.translate('B')
    o = wc.translate('B').translate('A').translate('B')
    env.eq('k', o.dict.get('k', 0), x)
    env.eq('l re', o.dict.get('l', 0).real, 0.0)
    env.eq('l im', o.dict.get('l', 0).imag, y)
    env.eq('scale', o.scale, wc.scale)
    env.true('eft/basis', (o.eft, o.basis) == ('E', 'B'))


HARNESSES = [Harness(wrapper, max_paths=3000, rel=0), Harness(dispatch, max_paths=200), Harness(errors_propagate), Harness(stack_of_calls),
             Harness(same_basis, max_paths=200, rel=0)]
ASSUMPTIONS = ['numbers are finite binary64', 'the conversion functions are harness functions returning symbolic values']
BOUNDS = ('Two input and up to three output coefficients, each symbolic over all finite binary64 (so that each may be zero, '
          'real or complex, Python or numpy); all sets of 3 translators and 3 matchers registered; up to 5 calls.')
