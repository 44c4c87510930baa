"""EOS converter."""
import os
import shutil
import tempfile
import bases
from vp import Harness

PLAIN = ['b->s::c%s' % p for p in ('1', '2', '3', '4', '5', '6', '8', "8'")]
CPLX = [n for n in bases.eos() if n not in PLAIN and 'nu' not in n]
CC = ['VL', 'VR', 'SL', 'SR', 'T']


def eos_name(n, part):
    pre, c = n.split('::')
    return '%s::%s{%s}' % (pre, part, c)


def setup(env, names, missing, shuffle=False):
    """SM dictionary, WC values and the expected NP contribution"""
    sm, values, np = {}, {}, {}
    for i, n in enumerate(names):
        keys = [n] if n in PLAIN else [eos_name(n, 'Re'), eos_name(n, 'Im')]
        for k in keys:
            sm[k] = {'central': env.real('sm ' + k, -5., 5.), 'min': env.real('min ' + k, -9., -5.), 'max': env.real('max ' + k, 5., 9.)}
            np[k] = 0
        if missing(i):
            continue
        re, im = env.real('re ' + n), env.real('im ' + n)
        form = i % 3
        if form == 0:
            values[n], im = re, 0
        elif form == 1:
            values[n] = {'Re': re, 'Im': im}
        else:
            values[n], re = {'Im': im}, 0
        np[keys[0]] = re
        if len(keys) > 1:
            np[keys[1]] = im
    return sm, values, np


def neutral(tag, miss):
    def run(env):
        W = env.W
        E = env.module('wcxf.converters.eos')
        names = PLAIN + CPLX
        sm, values, np = setup(env, names, miss)
        values['something::else'] = env.real('other')
        wc = W.WC('WET', 'EOS', 4.2, dict(values))
        sm0 = {k: dict(v) for k, v in sm.items()}
        out = E.wcxf2eos(wc, sm)
        env.true('SM dictionary not modified', sm == sm0)
        env.true('coefficients not modified', wc.values == values)
        env.true('same names in the same order', list(out) == list(sm))
        for k in sm:
            env.same_keys(k, out[k], ['central', 'min', 'max'])
            for q in ('central', 'min', 'max'):
                env.eq('%s %s = SM + NP' % (k, q), out[k][q], sm0[k]['central'] + np[k])
    run.__doc__ = 'every real and complex EOS coefficient: SM central value plus the real or imaginary NP part; %s' % tag
    return Harness(run, 'sum_' + tag)


def charged(env):
    """charged-current coefficients: lepton-universal values are added once, anything else is rejected"""
    W = env.W
    E = env.module('wcxf.converters.eos')
    c = CC[env.choice('coefficient', len(CC))]
    sm = {}
    # the parameters listed: real and imaginary parts, only one of them, or (for this coefficient) none
    listed = [('Re', 'Im'), ('Re',), ('Im',), ()][env.choice('listed', 4)]
    for x in CC:
        for p in listed if x == c else ('Re', 'Im'):
            sm['b->ulnu::%s{c%s}' % (p, x)] = {'central': env.real('sm %s %s' % (p, x), -2., 2.), 'min': 0.0, 'max': 0.0}
    values = {}
    v = {}
    for l in ('enue', 'munumu'):
        v[l] = [0, 0]
        if env.flag(l + ' given'):
            v[l] = [env.real('re ' + l), env.real('im ' + l)]
            if env.flag(l + ' explicit zero'):
                v[l] = [0.0, 0.0]
            values['b->u%s::c%s' % (l, c)] = {'Re': v[l][0], 'Im': v[l][1]}
    wc = W.WC('WET', 'EOS', 4.2, dict(values))
    universal = (v['enue'][0] == v['munumu'][0]) and (v['enue'][1] == v['munumu'][1])
    universal = bool(universal) or not listed
    try:
        out = E.wcxf2eos(wc, sm)
    except ValueError:
        env.true('only coefficients that are not lepton universal are rejected', not universal)
        return
    env.true('coefficients that are not lepton universal are rejected', universal)
    for x in CC:
        for i, p in enumerate(('Re', 'Im')):
            if x == c and p not in listed:
                continue
            k = 'b->ulnu::%s{c%s}' % (p, x)
            for q in ('central', 'min', 'max'):
                env.eq('%s %s' % (k, q), out[k][q], sm[k]['central'] + (v['enue'][i] if x == c else 0))


METAS = [None, '{}', 'wcxf-relevant: false', 'wcxf-relevant: true', 'other: true', 'wcxf-relevant: true\n    other: x']


def files(env):
    """SM contributions are read from exactly the parameter files marked as relevant"""
    E = env.module('wcxf.converters.eos')
    d = tempfile.mkdtemp()
    try:
        want = {}
        for i in range(2):
            m = METAS[env.choice('meta%d' % i, len(METAS))]
            body = {'b->s::Re{c%d}' % i: [env.fp('v%d%s' % (i, q)) for q in ('central', 'min', 'max')],
                    'b->x::c%d' % i: [env.fp('w%d%s' % (i, q)) for q in ('central', 'min', 'max')]}
            ext = '.yaml' if not env.flag('other file type %d' % i) else '.txt'
            with open(os.path.join(d, 'file%d%s' % (i, ext)), 'w') as f:
                if m is not None:
                    f.write('"@metadata@": %s\n' % m if m == '{}' else '"@metadata@":\n    %s\n' % m)
                for k, v in body.items():
                    f.write('"%s":\n' % k)
                    for q, x in zip(('central', 'min', 'max'), v):
                        f.write('    %s: %s\n' % (q, repr(x) if 'e' in repr(x) and '.' in repr(x) or 'e' not in repr(x)
                                                  else repr(x).replace('e', '.0e')))
            if ext == '.yaml' and m is not None and 'relevant: true' in m:
                want.update(body)
        got = E.get_sm_wcs(d)
        env.same_keys('coefficients', got, want)
        for k in want:
            if k in got:
                for q, x in zip(('central', 'min', 'max'), want[k]):
                    env.eq('%s %s' % (k, q), got[k][q], x)
    finally:
        shutil.rmtree(d)


HARNESSES = [neutral('all', lambda i: False), neutral('none', lambda i: True), neutral('odd', lambda i: i % 2 == 0),
             neutral('sparse', lambda i: i % 5 != 1), Harness(charged, max_paths=600), Harness(files, max_paths=400)]
ASSUMPTIONS = ['floating point addition is treated as real addition', 'file names and file system are concrete']
BOUNDS = ('All EOS coefficients of the basis with symbolic SM values and symbolic NP values in the three accepted notations, or missing; '
          'charged currents: both lepton coefficients symbolic, present, absent or zero, SM parameters listing real and imaginary part or one of them; two parameter files with six kinds of metadata each.')
