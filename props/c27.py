"""Human-readable form (Markdown) of Wilson coefficient files and bases."""
import copy
from vp import Harness
from props.c01 import make_value

# names and descriptions may contain anything
EFT, BASIS = 'my {EFT} %s', 'my basis {0} {{1}} %(x)s {'
NAMES = ['a_11', 'b->s::Re{c7}%d']
TEXT = r'What ${it}$ is: {0} {{x}} %s 100% \\n <b> {'
FORMS = ['float', 'dict', 'str', 'int', 'dictIm', 'dictRe']


def rows(text):
    """cells of all table rows"""
    return [[c.strip() for c in l.strip().strip('|').split('|')] for l in text.split('\n') if l.strip().startswith('|')]


def number(env, text):
    """the number a cell states"""
    text = text.strip().strip('$`')
    try:
        v = complex(text)
    except ValueError:
        return None
    if env.sym:
        from symx.fp import symbolize
        return symbolize(v)
    return v


def sections(text):
    """{heading: text below it}"""
    out, cur = {}, ''
    for l in text.split('\n'):
        if l.startswith('#'):
            cur = l.strip('# ').strip('`')
            out[cur] = ''
        else:
            out[cur] = out.get(cur, '') + l + '\n'
    return out


def wc(env):
    """str and Markdown of a file: EFT, basis, scale and each coefficient with its exact number"""
    W = env.W
    n = env.choice('n', 3)
    vals, want = {}, {}
    for i in range(n):
        k = NAMES[i]
        form = FORMS[env.choice('form%d' % i, len(FORMS))]
        v, re, im = make_value(env, 'x%d' % i, form)
        vals[k], want[k] = v, (re, im)
    scale = env.fp('scale')
    w = W.WC(EFT, BASIS, scale, vals, **({'metadata': {'generator': 'g'}} if env.flag('meta') else {}))
    if env.flag('read first'):
        w.dict
    keep = {k: dict(v) if isinstance(v, dict) else v for k, v in vals.items()}
    text = w._repr_markdown_() if env.flag('markdown') else str(w)
    env.true('text', isinstance(text, str))
    env.true('EFT and basis are named', EFT in text and BASIS in text)
    lines = [l for l in text.split('\n') if 'cale' in l and 'GeV' in l]
    env.true('one scale', len(lines) == 1)
    if len(lines) == 1:
        t = lines[0].replace('GeV', '').replace('*', '').split(':')[-1]
        s = number(env, t)
        env.true('scale is a number', s is not None)
        if s is not None:
            env.eq('scale', s, scale)
    got = {}
    for r in rows(text):
        if len(r) == 2 and r[0].startswith('`'):
            env.true('%s listed once' % r[0], r[0].strip('`') not in got)
            got[r[0].strip('`')] = number(env, r[1])
    env.same_keys('coefficients listed', got, want)
    for k in want:
        if k in got:
            env.true('%s is a number' % k, got[k] is not None)
            if got[k] is not None:
                env.eq('%s re' % k, got[k].real, want[k][0])
                env.eq('%s im' % k, got[k].imag, want[k][1])
    env.true('values not modified', set(w.values) == set(keep) and all(
        (w.values[k] == keep[k]) if isinstance(keep[k], dict) else w.values[k] is keep[k] for k in keep))
    r = repr(w)
    env.true('repr names EFT and basis', EFT in r and BASIS in r)


DEFS = [None, {}, {'real': True}, {'real': False}, {'tex': r'\bar b_{i} {} x^{0} %d'}, {'tex': r'y_2', 'real': True}]


def basis(env):
    """str of a basis: each sector with exactly its coefficients, their LaTeX and whether they are real"""
    W = env.W
    n = env.choice('n', 3)
    s = {'s1': {}, 's2': {}}
    for i, (sec, k) in enumerate((('s1', 'a_11'), ('s2', NAMES[1]))[:n]):
        s[sec][k] = copy.deepcopy(DEFS[env.choice('def%d' % i, len(DEFS))])
    if env.flag('third'):
        s['s1']['z'] = {'tex': 'zz'}
    meta = [None, {}, {'description': TEXT}, {'author': 'x'}][env.choice('meta', 4)]
    kw = {} if meta is None else {'metadata': meta}
    want = copy.deepcopy(s)
    if env.flag('child'):
        W.Basis(EFT, 'P', s)
        b = W.Basis(EFT, BASIS, {'s3': {'own': {'real': True}}}, parent='P', **kw)
        want['s3'] = {'own': {'real': True}}
    else:
        b = W.Basis(EFT, BASIS, s, **kw)
    text = str(b)
    env.true('EFT and basis are named', EFT in text and BASIS in text)
    env.true('description', (TEXT in text) == (meta is not None and 'description' in meta))
    sec = sections(text)
    for name, wcs in want.items():
        env.true('sector %s has a section' % name, name in sec)
        got = {}
        for r in rows(sec.get(name, '')):
            if len(r) == 3 and r[0].startswith('`'):
                env.true('%s listed once' % r[0], r[0].strip('`') not in got)
                got[r[0].strip('`')] = (r[1].strip('$ '), r[2])
        env.same_keys('coefficients of %s' % name, got, wcs)
        for k, d in wcs.items():
            d = d or {}
            env.true('%s: LaTeX and type' % k, got.get(k) == (d.get('tex', ''), 'R' if d.get('real') else 'C'))
    env.true('no other sectors', {x for x in sec if rows(sec[x])} <= set(want))
    env.true('short form has no tables', rows(b._repr_markdown_()) == [] and BASIS in b._repr_markdown_())
    env.true('basis not modified', {k: dict(v) for k, v in b.sectors.items()} == want)
    r = repr(b)
    env.true('repr names EFT and basis', EFT in r and BASIS in r)


HARNESSES = [Harness(wc, max_paths=1500, rel=0), Harness(basis, max_paths=1500)]
ASSUMPTIONS = ['numbers are finite binary64; Python writes and parses a binary64 number exactly (text is modelled by a unique stand-in '
               'number that is mapped back)']
BOUNDS = ('Files with up to two coefficients, each in any of six notations with symbolic finite numbers, symbolic scale; bases with two or '
          'three sectors and up to three coefficients with any of six kinds of definition, four kinds of metadata, with or without parent.')
