"""Dump / load round trips of WC, Basis and EFT objects and format conversion."""
import io
from vp import Harness
from props.c01 import make_value

FMTS = ['json', 'yaml', 'JSON', 'Yaml']


def public(o):
    return {k: v for k, v in vars(o).items() if not k.startswith('_')}


def same(env, label, a, b):
    """structural equality with symbolic leaves"""
    if isinstance(a, dict) or isinstance(b, dict):
        ok = isinstance(a, dict) and isinstance(b, dict)
        env.true(label + ': mapping', ok)
        if ok:
            env.same_keys(label, a, b)
            for k in b:
                if k in a:
                    same(env, '%s.%s' % (label, k), a[k], b[k])
    elif isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        ok = isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)
        env.true(label + ': sequence', ok)
        if ok:
            for i, (x, y) in enumerate(zip(a, b)):
                same(env, '%s[%d]' % (label, i), x, y)
    elif env.sym and type(a).__name__ == 'FStr' or type(b).__name__ == 'FStr':
        env.true(label + ': string', type(a) is type(b))
        if type(a) is type(b):
            env.eq(label, a.num, b.num)
    elif isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, bool):
        env.true('%s: %r' % (label, b), type(a) is type(b) and a == b)
    else:
        env.eq(label, a, b)


def roundtrip(env, o, cls, **load_kw):
    """dump in the chosen format to the chosen sink, load from the chosen source"""
    fmt = FMTS[env.choice('fmt', 4)]
    if env.flag('to_stream'):
        buf = io.StringIO()
        o.dump(buf, fmt=fmt)
        text = buf.getvalue()
    else:
        text = o.dump(fmt=fmt)
        env.true('dump without stream returns text', isinstance(text, str))
    env.true('dump produces output', len(text) > 0)
    if fmt.lower() == 'json':
        import json
        ok = True
        try:
            json.loads(text)
        except ValueError:
            ok = False
        env.true('json dump is valid JSON', ok)
    else:
        env.true('yaml dump is not the json form', not text.lstrip().startswith('{'))
    src = io.StringIO(text) if env.flag('from_stream') else text
    return cls.load(src)


def wc_roundtrip(env):
    """WC -> file -> WC keeps eft, basis, scale, every value and the metadata"""
    W = env.W
    form = ['float', 'dict', 'str', 'int', 'dictIm', 'dictRe', 'npfloat'][env.choice('form', 6)]
    v, re, im = make_value(env, 'x', form)
    w = env.fp('y')
    scale = env.fp('scale')
    meta = {'generator': 'g v1.0: test', 'nested': {'list': [1, 'two', None, True, 'yes', '1e5'], 'x': env.fp('m')}}
    if env.flag('empty'):    # a file without any coefficients (the Standard Model), empty metadata
        wc = W.WC('my EFT', 'my basis: a', scale, {}, metadata=[{}, None, [], ''][env.choice('emptymeta', 4)])
        back = roundtrip(env, wc, W.WC)
        same(env, 'WC', public(back), public(wc))
        env.true('no values', back.dict == {})
        return
    wc = W.WC('my EFT', 'my basis: a', scale, {'a_11': v, 'b->s::c7': w, '1': 0.5, 'e': {}}, metadata=meta)
    if env.flag('read_before_dump'):
        wc.dict
    back = roundtrip(env, wc, W.WC)
    env.true('type', type(back) is W.WC)
    same(env, 'WC', public(back), public(wc))
    env.eq('value re', back.dict['a_11'].real, re)
    env.eq('value im', back.dict['a_11'].imag, im)


def wc_numbers(env):
    """numbers -> values -> file -> numbers is exact, also for numpy scalars"""
    W = env.W
    v = env.fp_complex('x', np=env.flag('numpy'))
    wc = W.WC('E', 'B', env.fp('scale'), W.WC.dict2values({'a': v, 'b': 1 / 3.}))
    back = roundtrip(env, wc, W.WC)
    env.eq('re', back.dict['a'].real, v.real)
    env.eq('im', back.dict['a'].imag, v.imag)
    env.eq('b', back.dict['b'], 1 / 3.)
    env.eq('scale', back.scale, wc.scale)


def basis_roundtrip(env):
    """Basis -> file -> Basis keeps sectors and metadata and registers the loaded object"""
    W = env.W
    s = {'s1': {'a_11': {'tex': r'\bar a \gamma^\mu', 'real': True}, 'b': {}}, 's2': {'no': None, 'x': {'tex': 'y: z'}}}
    if env.flag('child'):
        W.Basis('E', 'parent', {'s1': {'p': {'real': True}}, 's3': {'q': {}}})
        b = W.Basis('E', 'B', s, parent='parent', metadata={'description': 'd'})
    elif env.flag('meta'):
        b = W.Basis('E', 'B', s, metadata={'description': 'line1\nline2', 'n': 3, 'w': env.fp('m')})
    else:
        b = W.Basis('E', 'B', {'s1': {}, 's2': s['s2']} if env.flag('empty sector') else {} if env.flag('no sectors') else s)
    if env.flag('queried'):
        b.all_wcs
    before = public(b)
    wcs = [w for x in before['sectors'].values() for w in x]
    back = roundtrip(env, b, W.Basis)
    env.true('type', type(back) is W.Basis)
    same(env, 'Basis', public(back), before)
    env.true('same coefficients', sorted(back.all_wcs) == sorted(wcs))
    env.true('loaded basis registered', W.Basis['E', 'B'] is back)


def eft_roundtrip(env):
    """EFT -> file -> EFT keeps sectors and metadata and registers the loaded object"""
    W = env.W
    e = W.EFT('E 1', {'s1': {}, 's2': {'tex': 'a'}, 'null': None} if not env.flag('no sectors') else {}, **(
        {'metadata': {'x': env.fp('m'), 'l': ['on', '~']}} if env.flag('meta') else {}))
    back = roundtrip(env, e, W.EFT)
    env.true('type', type(back) is W.EFT)
    same(env, 'EFT', public(back), public(e))
    env.true('loaded EFT registered', W.EFT['E 1'] is back)


def options(env):
    """JSON unless asked otherwise; formatting options reach the writer, in strings and streams"""
    W = env.W
    kind = env.choice('kind', 3)
    if kind == 0:
        o = W.WC('E', 'B', env.fp('scale'), {'b': env.fp('x'), 'a': {'Re': env.fp('re'), 'Im': env.fp('im')}})
    elif kind == 1:
        o = W.Basis('E', 'B', {'s': {'b': {}, 'a': {'real': True}}})
    else:
        o = W.EFT('E', {'s': {}, 'r': {}}, metadata={'x': env.fp('x')})
    before = public(o)
    j, kw, look = [
        (True, {}, lambda t: t.startswith('{\n')),
        (True, {'indent': None}, lambda t: '\n' not in t.strip()),
        (True, {'indent': 5}, lambda t: t.split('\n')[1][:6] == '     "'),
        (True, {'sort_keys': True}, lambda t: [l.strip().split('"')[1] for l in t.split('\n') if l[:3] == '  "'] == sorted(before)),
        (False, {'default_flow_style': True}, lambda t: t.startswith('{')),
        (False, {'explicit_start': True}, lambda t: t.startswith('---')),
        (False, {'indent': 7}, lambda t: any(l[:7] == ' ' * 7 and l[7:8] != ' ' for l in t.split('\n')))][env.choice('options', 7)]
    fmt = {} if j and env.flag('default format') else {'fmt': 'json' if j else 'yaml'}
    if env.flag('stream'):
        buf = io.StringIO()
        o.dump(buf, **dict(fmt, **kw))
        text = buf.getvalue()
    else:
        text = o.dump(**dict(fmt, **kw))
    env.true('options %s respected' % kw, bool(look(text)))
    if j:
        import json
        try:
            json.loads(text)
            ok = True
        except ValueError:
            ok = False
        env.true('JSON', ok)
    same(env, 'content', public(type(o).load(text)), before)


def bad_format(env):
    """an unknown format is refused with ValueError and nothing is written"""
    W = env.W
    fmt = ['xml', 'jsn', '', 'yamll', 'json ', 'yml'][env.choice('fmt', 6)]
    kind = env.choice('kind', 3)
    if kind == 0:
        o = W.WC('E', 'B', env.fp('scale'), {'a': env.fp('x')})
    elif kind == 1:
        o = W.Basis('E', 'B', {'s': {}})
    else:
        o = W.EFT('E', {'s': {}})
    buf = io.StringIO()
    env.raises('unknown format refused', ValueError, o.dump, buf, fmt=fmt)
    env.raises('unknown format refused (string)', ValueError, o.dump, fmt=fmt)
    env.true('nothing written', buf.getvalue() == '')


def convert(env):
    """JSON <-> YAML conversion preserves the data"""
    W = env.W
    C = env.module('wcxf.converters.yamljson')
    wc = W.WC('E', 'B', env.fp('scale'), {'a': env.fp('x'), 'b': {'Re': env.fp('re'), 'Im': env.fp('im')},
                                          'c': env.fp_int('n'), 'd': None}, metadata={'l': ['yes', 1, None], 's': 'x: y'})
    if env.flag('start_json'):
        t1 = wc.dump(fmt='json')
        fns = [C.convert_yaml, C.convert_json]
    else:
        t1 = wc.dump(fmt='yaml')
        fns = [C.convert_json, C.convert_yaml]
    texts = [t1]
    for f in fns:
        out = io.StringIO()
        r = f(io.StringIO(texts[-1]), out)
        env.true('conversion reports success', not r)
        texts.append(out.getvalue())
    for i, t in enumerate(texts):
        back = W.WC.load(t)
        same(env, 'after %d conversions' % i, public(back), public(wc))
    import json
    j = texts[1] if fns[0] is C.convert_json else texts[2]
    ok = True
    try:
        json.loads(j)
    except ValueError:
        ok = False
    env.true('convert to json yields JSON', ok)
    y = texts[2] if fns[0] is C.convert_json else texts[1]
    env.true('convert to yaml yields block YAML', not y.lstrip().startswith('{'))


def convert_bad(env):
    """unparsable input: failure is reported (non-zero), no exception, nothing claimed converted"""
    C = env.module('wcxf.converters.yamljson')
    out = io.StringIO()
    if env.flag('json'):
        bad = ['{a: [1, 2', '- a\n b: c: d', '"abc'][env.choice('bad', 3)]
        r = C.convert_json(io.StringIO(bad), out)
    else:
        bad = ['{"a": ', '', 'a: 1'][env.choice('bad', 3)]
        r = C.convert_yaml(io.StringIO(bad), out)
    env.true('failure reported', r not in (None, 0))
    env.true('no output', out.getvalue() == '')


HARNESSES = [Harness(wc_roundtrip, max_paths=600, rel=0), Harness(wc_numbers, max_paths=600, rel=0),
             Harness(basis_roundtrip, max_paths=600, rel=0), Harness(eft_roundtrip, max_paths=600, rel=0), Harness(bad_format), Harness(options, max_paths=400),
             Harness(convert), Harness(convert_bad)]
ASSUMPTIONS = ['numbers are finite binary64; Python\'s json and yaml libraries write and parse a binary64 number exactly '
               '(text is modelled by writing a unique stand-in number and mapping it back)',
               'the libraries json and yaml themselves run concretely']
BOUNDS = ('Fixed small documents (up to 3 coefficients, nested metadata, child bases, empty values, sectors and metadata) with every numeric leaf symbolic over '
          'all finite binary64; all combinations of format spelling, stream/string sink and source, coefficient form.')
