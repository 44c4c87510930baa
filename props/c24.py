"""SMEFTsim param_card."""
import json
import os
import re
import cmath
import bases
from vp import Harness, HERE

with open(os.path.join(HERE, 'smeftsim_card.json')) as _f:
    CARD = json.load(_f)            # block and index -> parameter name of the SMEFTsim models
OPS = {'cHl1': 'phil1', 'cHl3': 'phil3', 'cHe': 'phie', 'cHq1': 'phiq1', 'cHq3': 'phiq3', 'cHu': 'phiu', 'cHd': 'phid',
       'cHud': 'phiud', 'ceH': 'ephi', 'cuH': 'uphi', 'cdH': 'dphi', 'cHL3': 'phil3', 'cHQ3': 'phiq3', 'cQQ3': 'qq3',
       'cLQ3': 'lq3', 'cUD8': 'ud8', 'cQU8': 'qu8', 'cQD8': 'qd8', 'cQUQD8': 'quqd8', 'cLeQu3': 'lequ3', 'cHL': 'phil3',
       'cHQ': 'phiq3', 'cQQ': 'qq3', 'cLQ': 'lq3', 'cUD': 'ud8', 'cQU': 'qu8', 'cQD': 'qd8', 'cQUQD': 'quqd8', 'cLeQu': 'lequ3'}
BOS = {'cHBox': 'phiBox', 'cHbox': 'phiBox', 'cHDD': 'phiD', 'cH': 'phi', 'cHB': 'phiB', 'cHW': 'phiW', 'cHWB': 'phiWB',
       'cHG': 'phiG', 'cW': 'W', 'cG': 'G', 'cWtil': 'Wtilde', 'cGtil': 'Gtilde', 'cHBtil': 'phiBtilde', 'cHWtil': 'phiWtilde',
       'cHWBtil': 'phiWtildeB', 'cHGtil': 'phiGtilde'}
for _o in bases.SMEFT:
    OPS.setdefault('c' + _o, _o)
_ORD = sorted(OPS, key=len, reverse=True)
_memo = {}


def parse(lab):
    """SMEFTsim parameter name -> (WCxf coefficient, Abs/Ph/None)"""
    if lab not in _memo:
        _memo[lab] = _parse(lab)
    return _memo[lab]


def _parse(lab):
    if lab in BOS:
        return BOS[lab], None
    for o in _ORD:
        m = re.match('^' + o + r'(Abs|Ph)?([\dx]+)$', lab)
        if m:
            op, ind = OPS[o], m.group(2).replace('x', '')
            if len(ind) == (2 if op in bases.TWO else 4):
                orb = bases.orbit(tuple(int(c) - 1 for c in ind), bases.SMEFT[op])
                rep = min(i for i, c in orb)
                assert (rep, False) in orb, lab      # never needs a conjugation
                return bases.nm(op, rep), m.group(1)
    raise KeyError(lab)


REAL = bases.keys('SMEFT', 'Warsaw mass')
USED = {m: sorted({parse(e[-1])[0] for v in CARD[m].values() for e in v if e[-1] not in ('LambdaSMEFT', 'Lambda')}) for m in 'AB'}


def absval(x):
    return abs(x)


def ang(env, x):
    if env.sym:
        return x.angle() if hasattr(x, 'angle') else cmath.phase(x)
    import numpy
    return float(numpy.angle(x))


def check_card(env, model, card, C, lam, tag):
    blocks = card['Block']
    env.same_keys(tag + ' blocks', blocks, CARD[model])
    for b, entries in CARD[model].items():
        got = {tuple(e[:-2]): e[-2] for e in blocks[b]['values']}
        want = {tuple(e[:-1]): e[-1] for e in entries}
        env.true('%s: no index of block %s is used twice' % (tag, b), len(got) == len(blocks[b]['values']))
        env.same_keys('%s block %s' % (tag, b), [k for k in got if not (b == 'FRBlock' and k == (1475,))], want)
        for k, lab in want.items():
            v = env.num(got.get(k, 'nan'))
            if lab in ('LambdaSMEFT', 'Lambda'):
                env.eq('%s %s' % (tag, lab), v, lam)
                continue
            name, part = parse(lab)
            c = C.get(name, 0.0)
            if part == 'Ph':
                env.eq('%s: %s is the phase of %s' % (tag, lab, name), v, ang(env, c))
            elif REAL[name]:
                env.eq('%s: %s is %s times the cutoff squared' % (tag, lab, name), v, c * lam ** 2)
            else:
                env.eq('%s: %s is the modulus of %s times the cutoff squared' % (tag, lab, name), v, absval(c) * lam ** 2)


def fill(model, tag, sel, scheme='alpha'):
    def run(env):
        W = env.W
        S = env.module('wcxf.converters.smeftsim')
        lam = env.real('cutoff', 200., 20000.)
        C, values = {}, {}
        for i, k in enumerate(USED[model]):
            if not sel(i, k):
                continue
            if REAL[k]:
                r = env.real(k)
                C[k] = r
                values[k] = r if i % 3 else ({'Re': r} if i % 2 else {'Re': r, 'Im': 0})
            else:
                re, im = env.real(k + '.re'), env.real(k + '.im', 0.01, 1.) if i % 2 else env.real(k + '.im', -1., -0.01)
                C[k] = re + 1j * im
                values[k] = {'Re': re, 'Im': im}
        wc = W.WC('SMEFT', 'Warsaw mass', 1000., values)
        before = dict(wc.dict)
        card = S.initialize_smeftsim_card(model)
        out = S.smeftsim_card_fill(card, wc, model, lam, scheme)
        env.true('coefficients not modified', set(wc.dict) == set(before) and all(wc.dict[k] is before[k] for k in before))
        check_card(env, model, out, C, lam, 'set %s' % model)
        mw = [e for e in out['Block']['FRBlock']['values'] if tuple(e[:-2]) == (1475,)]
        env.true('W mass entry only in set A with the mw scheme', (len(mw) == 1) == (model == 'A' and scheme == 'mw'))
        for e in mw:
            env.eq('W mass', env.num(e[-2]), 80.387)
    run.__doc__ = 'every entry of the set %s card for symbolic coefficients and cutoff; %s; input scheme %s' % (model, tag, scheme)
    return Harness(run, 'card_%s_%s' % (model, tag), rel=2e-6, abs_=1e-6, max_seconds=400)


def special(model):
    """a handful of coefficients with vanishing real or imaginary parts (real and negative, purely imaginary, zero)"""
    def run(env):
        W = env.W
        S = env.module('wcxf.converters.smeftsim')
        lam = 1000. if env.flag('default cutoff') else env.real('cutoff', 200., 20000.)
        names = ['uphi_12', 'lq1_1123', 'phil1_11', 'G', 'ledq_3121', 'll_1221']
        vals = [0, 1.5e-7, -1.5e-7, 2e-7j, -2e-7j]
        k = names[env.choice('name', len(names))]
        v = vals[env.choice('value', 3 if REAL[k] else len(vals))]
        val = {'Re': v.real, 'Im': v.imag} if env.flag('Re/Im notation') or v.imag else float(v.real)
        wc = W.WC('SMEFT', 'Warsaw mass', 1000., {k: val})
        out = S.smeftsim_card_fill(S.initialize_smeftsim_card(model), wc, model, lam, 'alpha')
        entries = [(b, e) for b, es in CARD[model].items() for e in es if e[-1] not in ('LambdaSMEFT', 'Lambda') and parse(e[-1])[0] == k]
        for b, e in entries:
            got = {tuple(x[:-2]): x[-2] for x in out['Block'][b]['values']}[tuple(e[:-1])]
            part = parse(e[-1])[1]
            want = ang(env, v) if part == 'Ph' else (v * lam ** 2 if REAL[k] else abs(v) * lam ** 2)
            env.eq('%s=%s: %s' % (k, v, e[-1]), env.num(got), want)
    run.__doc__ = special.__doc__ + ', set ' + model
    return Harness(run, 'special_' + model, rel=2e-6, abs_=1e-6)


def text(env):
    """the card text of the two input schemes: the mw scheme has the W mass as input instead of the electromagnetic coupling"""
    S = env.module('wcxf.converters.smeftsim')
    model = 'AB'[env.choice('model', 2)]
    scheme = ['alpha', 'mw'][env.choice('scheme', 2)]
    pre, post = S.smeftsim_card_text(model, scheme)
    env.true('header names the model set', re.search(r'SMEFTSIM SET %s\b' % model, pre) is not None)
    env.true('header names the input scheme', re.search(r'\b%s_INPUTS' % scheme.upper(), pre) is not None)
    sm = blocks(pre)
    env.same_keys('inputs (%s, %s)' % (model, scheme), sm['sminputs'], ['2', '3'] if scheme == 'mw' else ['1', '2', '3'])
    for pid in ('24', '9000003', '9000004', '251'):
        env.true('mass of %s present (%s, %s)' % (pid, model, scheme), pid in sm['mass'])
        if scheme == 'mw':
            env.eq('mass of %s (%s)' % (pid, model), float(sm['mass'].get(pid, 'nan')), 80.387)
    for pid in ('23', '25', '6', '5', '15'):
        env.true('mass of %s present (%s, %s)' % (pid, model, scheme), pid in sm['mass'])
    other = S.smeftsim_card_text(model, 'alpha' if scheme == 'mw' else 'mw')
    o = blocks(other[0])
    for pid in sm['mass']:
        if pid not in ('24', '9000003', '9000004', '251'):
            env.true('mass of %s does not depend on the scheme' % pid, sm['mass'][pid] == o['mass'].get(pid))
    env.true('decay widths do not depend on the scheme', sm.get('decay') == o.get('decay'))
    env.true('rest of the card does not depend on the scheme', post == other[1])


def blocks(text_):
    d, cur = {}, None
    for l in text_.split('\n'):
        l = l.split('#')[0].split()
        if not l:
            continue
        if l[0].lower() == 'block':
            cur = d.setdefault(l[1].lower(), {})
        elif l[0].lower() == 'decay':
            d.setdefault('decay', {})[l[1]] = l[2]
        elif cur is not None:
            cur[' '.join(l[:-1])] = l[-1]
    return d


HARNESSES = []
for _m in 'AB':
    HARNESSES += [fill(_m, 'all', lambda i, k: True), fill(_m, 'none', lambda i, k: False, 'mw'),
                  fill(_m, 'odd', lambda i, k: i % 2 == 1, 'mw'), fill(_m, 'even', lambda i, k: i % 2 == 0), special(_m)]
HARNESSES += [Harness(text)]
ASSUMPTIONS = ['floating point products are treated as real products; six digits after the point are written',
               'block and index of every SMEFTsim parameter (external model definition) as listed in /verif/smeftsim_card.json']
BOUNDS = ('All Warsaw-basis coefficients of the card symbolic (complex ones with nonzero imaginary part of either sign; zero, real negative and '
          'imaginary values for six of them), present or missing; cutoff symbolic in [200, 20000] GeV; both model sets, both input schemes.')
