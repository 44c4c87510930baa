"""Lossless number codec of WCxf values."""
from vp import Harness

FORMS = ['float', 'complex', 'int', 'str', 'npfloat', 'npcomplex', 'dict', 'dictRe', 'dictIm', 'dictstr', 'dictint',
         'dict0']


def make_value(env, name, form):
    """-> (file value, real part, imaginary part)"""
    if form == 'float':
        v = env.fp(name)
        return v, v, 0.0
    if form == 'npfloat':
        v = env.fp_np(name)
        return v, v, 0.0
    if form == 'int':
        v = env.fp_int(name)
        return v, v, 0.0
    if form == 'str':
        v = env.fp_str(name)
        return v, (v.to_float() if env.sym else float(v)), 0.0
    if form == 'dict':
        a, b = env.fp(name + '.re'), env.fp(name + '.im')
        return {'Re': a, 'Im': b}, a, b
    if form == 'dictRe':
        a = env.fp(name + '.re')
        return {'Re': a}, a, 0.0
    if form == 'dictIm':
        b = env.fp(name + '.im')
        return {'Im': b}, 0.0, b
    if form == 'dictstr':
        a, b = env.fp_str(name + '.re'), env.fp_str(name + '.im')
        f = (lambda x: x.to_float()) if env.sym else float
        return {'Im': b, 'Re': a}, f(a), f(b)
    if form == 'dictint':
        a, b = env.fp_int(name + '.re'), env.fp_int(name + '.im')
        return {'Im': b, 'Re': a}, a, b
    if form == 'dict0':
        return {}, 0.0, 0.0


def decode(env):
    """every documented file form of a coefficient is read as exactly the number it denotes"""
    W = env.W
    form = [f for f in FORMS if f not in ('complex', 'npcomplex')][env.choice('form', 10)]
    v, re, im = make_value(env, 'x', form)
    scale = env.fp('scale')
    wc = W.WC('E', 'B', scale, {'a': v, 'z': 1.5})
    d = wc.dict
    env.same_keys('names', d, ['a', 'z'])
    env.eq('real part read (%s)' % form, d['a'].real, re)
    env.eq('imaginary part read (%s)' % form, d['a'].imag, im)
    env.eq('other entry', d['z'], 1.5)
    env.eq('scale', wc.scale, scale)
    env.true('the stored value is not replaced', wc.values['a'] is v)


def encode(env):
    """numbers -> file values -> numbers is exact; the file form is a plain float iff the imaginary part is zero"""
    W = env.W
    kind = env.choice('kind', 4)
    if kind == 0:
        v = env.fp('x')
        re, im = v, 0.0
    elif kind == 1:
        v = env.fp_complex('x')
        re, im = v.real, v.imag
    elif kind == 2:
        v = env.fp_np('x')
        re, im = v, 0.0
    else:
        v = env.fp_complex('x', np=True)
        re, im = v.real, v.imag
    src = {'a': v, 'b': 0.25}
    vals = W.WC.dict2values(src)
    env.same_keys('names', vals, ['a', 'b'])
    env.true('input not modified', src['a'] is v and src['b'] == 0.25 and len(src) == 2)
    fv = vals['a']
    if im != 0:
        env.true('complex number is stored as real and imaginary part', isinstance(fv, dict))
        if isinstance(fv, dict):
            env.same_keys('parts', fv, ['Re', 'Im'])
            env.eq('stored real part', fv.get('Re'), re)
            env.eq('stored imaginary part', fv.get('Im'), im)
            plain = [fv.get('Re'), fv.get('Im')]
        else:
            plain = []
    else:
        env.true('real number is stored as a plain number', not isinstance(fv, dict))
        env.eq('stored number', fv, re)
        plain = [fv]
    for x in plain:
        env.true('stored parts are plain Python floats', is_plain_float(env, x))
    wc = W.WC('E', 'B', 91.1876, vals)
    env.eq('real part after encoding and decoding', wc.dict['a'].real, re)
    env.eq('imaginary part after encoding and decoding', wc.dict['a'].imag, im)


def is_plain_float(env, x):
    if env.sym:
        from symx.fp import FNum
        return type(x) is float or isinstance(x, FNum) and x.kind == 'float' and not x.np
    return type(x) is float


def fixed_point(env):
    """re-encoding what was decoded is stable and order/keys are kept"""
    W = env.W
    f1 = ['float', 'dict', 'str', 'int', 'dictIm'][env.choice('f1', 5)]
    f2 = ['dict', 'float', 'dictRe'][env.choice('f2', 3)]
    v1, a, b = make_value(env, 'x', f1)
    v2, c, d = make_value(env, 'y', f2)
    wc = W.WC('E', 'B', 5, {'k2': v2, 'k1': v1})
    vals = W.WC.dict2values(wc.dict)
    env.true('order kept', list(vals) == ['k2', 'k1'])
    wc2 = W.WC('E', 'B', 5, vals)
    for k, re, im in (('k1', a, b), ('k2', c, d)):
        env.eq(k + ' re', wc2.dict[k].real, re)
        env.eq(k + ' im', wc2.dict[k].imag, im)
    env.eq('repeated read re', wc.dict['k1'].real, a)
    env.eq('repeated read im', wc.dict['k1'].imag, b)


HARNESSES = [Harness(decode, rel=0), Harness(encode, rel=0), Harness(fixed_point, max_paths=400, rel=0)]
ASSUMPTIONS = ['numbers are finite binary64 values; equality is IEEE equality (the sign of a zero is not compared)',
               'integers are those exactly representable in binary64',
               'a numeral string is abstracted by the binary64 value Python parses it to']
BOUNDS = ('Bit-exact over all finite binary64 values of every real/imaginary part and of the scale; file forms: plain '
          'number, integer, numeral string, Re/Im mapping with either or both or no part; up to two coefficients.')
