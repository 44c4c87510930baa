"""Reference models of the WET basis translators, written as compact closed
formulas over index tuples, independent of the code's intermediate dictionaries."""
import math
from common import Jms, conj, sqrt, ckm
PI = math.pi
D = {'d': 0, 's': 1, 'b': 2}
U = {'u': 0, 'c': 1}
LEP = {'e': 0, 'mu': 1, 'tau': 2}
NC = 3.
CC = ('cb', 'ub', 'us', 'cs', 'cd', 'ud')
QQ = ('sb', 'db', 'ds')


def couplings(p):
    return sqrt(4 * PI * p['alpha_e']), sqrt(4 * PI * p['alpha_s'])


def norm4(p):
    """1 / (4 GF / sqrt 2)"""
    return math.sqrt(2) / p['GF'] / 4


def df2(J, typ, i, j):
    """Delta F = 2, susy basis 1..5, 1'..3' for quarks i,j of type d or u"""
    V, S1, S8 = 'V' + typ * 2, 'S1' + typ * 2 + 'RR', 'S8' + typ * 2 + 'RR'
    r = {}
    r['1'] = J(V + 'LL', i, j, i, j)
    r['1p'] = J(V + 'RR', i, j, i, j)
    r['2p'] = J(S1, i, j, i, j) - J(S8, i, j, i, j) / (2 * NC)
    r['3p'] = J(S8, i, j, i, j) / 2
    r['2'] = conj(J(S1, j, i, j, i) - J(S8, j, i, j, i) / (2 * NC))
    r['3'] = conj(J(S8, j, i, j, i)) / 2
    v1, v8 = J('V1' + typ * 2 + 'LR', i, j, i, j), J('V8' + typ * 2 + 'LR', i, j, i, j)
    r['4'] = -1 * v8
    r['5'] = -2 * v1 + v8 / NC
    return r


def charged(J, u, d, l, lp):
    return {'1': J.c('VnueduLL', lp, l, d, u), '5': J.c('SnueduRL', lp, l, d, u),
            '1p': J.c('VnueduLR', lp, l, d, u), '5p': J.c('SnueduRR', lp, l, d, u),
            '7p': J.c('TnueduRR', lp, l, d, u)}


def fierz4(J, q):
    """four-quark coefficients in the Fierz intermediate basis, [1..10], [1p..10p]"""
    f1, f2 = D[q[0]], D[q[1]]
    F = {}
    if q[2] in U:
        f3, f4 = U[q[2]], U[q[3]]
        a1, a8 = J('V1udLL', f3, f4, f1, f2), J('V8udLL', f3, f4, f1, f2)
        F['1'], F['2'] = a1 - a8 / 6, a8 / 2
        a1, a8 = J('V1duLR', f1, f2, f3, f4), J('V8duLR', f1, f2, f3, f4)
        F['3'], F['4'] = a1 - a8 / 6, a8 / 2
        a1, a8 = J('V1udRR', f3, f4, f1, f2), J('V8udRR', f3, f4, f1, f2)
        F['1p'], F['2p'] = a1 - a8 / 6, a8 / 2
        a1, a8 = J('V1udLR', f3, f4, f1, f2), J('V8udLR', f3, f4, f1, f2)
        F['3p'], F['4p'] = a1 - a8 / 6, a8 / 2

        def scal(g, h1, h2, h3, h4):
            s1, s8 = g('S1udRR', h3, h4, h1, h2), g('S8udRR', h3, h4, h1, h2)
            t1, t8 = g('S1udduRR', h3, h2, h1, h4), g('S8udduRR', h3, h2, h1, h4)
            return s1 - t8 / 4 - s8 / 6, -t1 / 2 + t8 / 12 + s8 / 2, -t8 / 16, -t1 / 8 + t8 / 48
        v = {'': (J.c('V1udduLR', f4, f1, f2, f3), J.c('V8udduLR', f4, f1, f2, f3)),
             'p': (J('V1udduLR', f3, f2, f1, f4), J('V8udduLR', f3, f2, f1, f4))}
        sc = {'': scal(J, f1, f2, f3, f4), 'p': scal(J.c, f2, f1, f4, f3)}
    else:
        f3, f4 = D[q[2]], D[q[3]]
        F['1'], F['2'] = J('VddLL', f3, f4, f1, f2), J('VddLL', f1, f4, f3, f2)
        F['1p'] = J('VddRR', f3, f4, f1, f2)
        F['2p'] = J('VddRR', f1, f4, f3, f2)
        a1, a8 = J('V1ddLR', f1, f2, f3, f4), J('V8ddLR', f1, f2, f3, f4)
        F['3'], F['4'] = a1 - a8 / 6, a8 / 2
        a1, a8 = J('V1ddLR', f3, f4, f1, f2), J('V8ddLR', f3, f4, f1, f2)
        F['3p'], F['4p'] = a1 - a8 / 6, a8 / 2

        def scal(g, h1, h2, h3, h4):
            s1, s8 = g('S1ddRR', h3, h4, h1, h2), g('S8ddRR', h3, h4, h1, h2)
            t1, t8 = g('S1ddRR', h3, h2, h1, h4), g('S8ddRR', h3, h2, h1, h4)
            return s1 - t8 / 4 - s8 / 6, -t1 / 2 + t8 / 12 + s8 / 2, -t8 / 16, -t1 / 8 + t8 / 48
        v = {'': (J('V1ddLR', f1, f4, f3, f2), J('V8ddLR', f1, f4, f3, f2)),
             'p': (J('V1ddLR', f3, f2, f1, f4), J('V8ddLR', f3, f2, f1, f4))}
        sc = {'': scal(J, f1, f2, f3, f4), 'p': scal(J.c, f2, f1, f4, f3)}
    for s in ('', 'p'):
        F['5' + s], F['6' + s], F['9' + s], F['10' + s] = sc[s]
        v1, v8 = v[s]
        F['7' + s], F['8' + s] = -1 * v8, -2 * v1 + v8 / NC
    return F


NOT24 = ('sbss', 'dbdd', 'dbds', 'sbsd', 'dsdd')
EQ24 = ('dbbb', 'sbbb', 'dsss')
GEN_DD = ('sbdd', 'dbss', 'dsbb')


def four_quark_bern(J, q):
    F = fierz4(J, q)
    B = {}
    for s in ('', 'p'):
        f = lambda n: F['%d%s' % (n, s)]
        if q in NOT24 + EQ24:
            B['1' + s] = (4 * f(3) - f(1)) / 3
            B['3' + s] = (f(1) - f(3)) / 12
            t = ('p' if s == '' else '') if q in NOT24 else s
            g = lambda n: F['%d%s' % (n, t)]
            B['5' + s] = (4 * g(7) - g(5)) / 3
            B['7' + s] = (g(5) - g(7)) / 3 + g(9)
            B['9' + s] = (g(5) - g(7)) / 48
        else:
            B['1' + s] = (4 * f(3) - f(1)) / 3 + (4 * f(4) - f(2)) / 9
            B['2' + s] = 2 * (4 * f(4) - f(2)) / 3
            B['3' + s] = (f(1) - f(3)) / 12 + (f(2) - f(4)) / 36
            B['4' + s] = (f(2) - f(4)) / 6
            B['5' + s] = (4 * f(7) - f(5)) / 3 + (4 * f(8) - f(6)) / 9
            B['6' + s] = 2 * (4 * f(8) - f(6)) / 3
            B['7' + s] = (f(5) - f(7)) / 3 + f(9) + f(10) / 3 + (f(6) - f(8)) / 9
            B['8' + s] = 2 * f(10) + 2 * (f(6) - f(8)) / 3
            B['9' + s] = (f(5) - f(7)) / 48 + (f(6) - f(8)) / 144
            B['10' + s] = (f(6) - f(8)) / 24
    return B


def semilep(J, s, b, l, lp):
    """9,10,S,P,T,T5 and primed, nu, nup in units of the Lagrangian"""
    r = {}
    ql, qq = J('VdeLR', s, b, l, lp), J('VedLL', l, lp, s, b)
    r['9'], r['10'] = (ql + qq) / 2, (ql - qq) / 2
    rr, lr = J('VedRR', l, lp, s, b), J('VedLR', l, lp, s, b)
    r['9p'], r['10p'] = (rr + lr) / 2, (rr - lr) / 2
    a, c = J('SedRR', l, lp, s, b), J.c('SedRL', lp, l, b, s)
    r['S'], r['P'] = (a + c) / 2, (a - c) / 2
    a, c = J('SedRL', l, lp, s, b), J.c('SedRR', lp, l, b, s)
    r['Sp'], r['Pp'] = (a + c) / 2, (a - c) / 2
    a, c = J('TedRR', l, lp, s, b), J.c('TedRR', lp, l, b, s)
    r['T'], r['T5'] = (a + c) / 2, (a - c) / 2
    r['nu'], r['nup'] = J('VnudLL', l, lp, s, b), J('VnudLR', l, lp, s, b)
    return r


def semilep_bern(f):
    return {'1': f['9'] + 5 * f['10'] / 3, '3': f['10'] / (-6.), '5': f['S'] - 5 * f['P'] / 3,
            '7': 2 * f['P'] / 3 + f['T'] + f['T5'], '9': f['P'] / 24.,
            '1p': f['9p'] - 5 * f['10p'] / 3, '3p': f['10p'] / 6., '5p': f['Sp'] + 5 * f['Pp'] / 3,
            '7p': -2 * f['Pp'] / 3 + f['T'] - f['T5'], '9p': f['Pp'] / (-24.),
            'nu1': f['nu'], 'nu1p': f['nup']}


def jms_to_bern(env, C, p):
    J = Jms(C)
    e, gs = couplings(p)
    out = {}
    for qq in QQ:
        s, b = D[qq[0]], D[qq[1]]
        for k, v in df2(J, 'd', s, b).items():
            out[k + 2 * qq] = v
        for l in LEP:
            for lp in LEP:
                for k, v in semilep_bern(semilep(J, s, b, LEP[l], LEP[lp])).items():
                    out[k + qq + l + lp] = v
        out['7gamma' + qq] = gs * gs / e / p['m_b'] * J('dgamma', s, b)
        out['7pgamma' + qq] = gs * gs / e / p['m_b'] * J.c('dgamma', b, s)
        out['8g' + qq] = gs / p['m_b'] * J('dG', s, b)
        out['8pg' + qq] = gs / p['m_b'] * J.c('dG', b, s)
    for ud in CC:
        for l in LEP:
            for lp in LEP:
                for k, v in charged(J, U[ud[0]], D[ud[1]], LEP[l], LEP[lp]).items():
                    out[k + ud + l + lp] = v
    for q in [qq + a + b for qq in QQ for a in 'uc' for b in 'uc'] + list(NOT24 + EQ24 + GEN_DD):
        for k, v in four_quark_bern(J, q).items():
            out[k + q] = v
    n = norm4(p)
    return {k: n * v for k, v in out.items()}


def xi(V, qq):
    return V[2][D[qq[1]]] * conj(V[2][D[qq[0]]])


def df2_flavio(b):
    return {'CVLL': b['1'], 'CSLL': b['2'] - b['3'] / 2, 'CTLL': b['3'] / (-8.), 'CVLR': b['5'] / (-2.),
            'CVRR': b['1p'], 'CSRR': b['2p'] - b['3p'] / 2, 'CTRR': b['3p'] / (-8.), 'CSLR': b['4']}


CC_FLAVIO = {'CVL': '1', 'CVR': '1p', 'CSR': '5', 'CSL': '5p', 'CT': '7p'}


def flavio_lep(env, f, qq, l, lp, p, V, out):
    """f: semileptonic coefficients"""
    e, gs = couplings(p)
    n = norm4(p) / xi(V, qq)
    fl = qq[1] + qq[0]
    out['CL_%snu%snu%s' % (fl, l, lp)] = n * 8 * PI ** 2 / (e * e) * f['nu']
    out['CR_%snu%snu%s' % (fl, l, lp)] = n * 8 * PI ** 2 / (e * e) * f['nup']
    if qq != 'ds':
        for k in ('9', '10', '9p', '10p'):
            out['C%s_%s%s%s' % (k, fl, l, lp)] = n * 16 * PI ** 2 / (e * e) * f[k]
        for k in ('S', 'P', 'Sp', 'Pp'):
            out['C%s_%s%s%s' % (k, fl, l, lp)] = n * 16 * PI ** 2 / (e * e) / p['m_b'] * f[k]


def jms_to_flavio(env, C, p):
    J = Jms(C)
    e, gs = couplings(p)
    V = ckm(env, p)
    out = {}
    for qq in QQ:
        s, b = D[qq[0]], D[qq[1]]
        fl = qq[1] + qq[0]
        for k, v in df2_flavio(df2(J, 'd', s, b)).items():
            out['%s_%s' % (k, 2 * fl)] = v
        for l in LEP:
            for lp in LEP:
                flavio_lep(env, semilep(J, s, b, LEP[l], LEP[lp]), qq, l, lp, p, V, out)
        if qq != 'ds':
            n = norm4(p) / xi(V, qq) * 16 * PI ** 2 / p['m_b']
            out['C7_' + fl], out['C7p_' + fl] = n / e * J('dgamma', s, b), n / e * J.c('dgamma', b, s)
            out['C8_' + fl], out['C8p_' + fl] = n / gs * J('dG', s, b), n / gs * J.c('dG', b, s)
    for ud in CC:
        u, d = U[ud[0]], D[ud[1]]
        for l in LEP:
            for lp in LEP:
                ch = charged(J, u, d, LEP[l], LEP[lp])
                for k, b in CC_FLAVIO.items():
                    out['%s_%s%s%snu%s' % (k, ud[1], ud[0], l, lp)] = -norm4(p) / V[u][d] * ch[b]
    return out


def bern_to_flavio(env, B, p):
    g = lambda k: B.get(k, 0)
    e, gs = couplings(p)
    V = ckm(env, p)
    out = {}
    for qq in QQ:
        fl = qq[1] + qq[0]
        b = {k: g(k + 2 * qq) for k in ('1', '2', '3', '4', '5', '1p', '2p', '3p')}
        for k, v in df2_flavio(b).items():
            out['%s_%s' % (k, 2 * fl)] = v
        for l in LEP:
            for lp in LEP:
                h = lambda k: g(k + qq + l + lp)
                f = {'9': h('1') + 10 * h('3'), '10': -6 * h('3'), 'S': h('5') + 40 * h('9'), 'P': 24 * h('9'),
                     '9p': h('1p') + 10 * h('3p'), '10p': 6 * h('3p'), 'Sp': h('5p') + 40 * h('9p'),
                     'Pp': -24 * h('9p'), 'nu': h('nu1'), 'nup': h('nu1p')}
                flavio_lep(env, f, qq, l, lp, p, V, out)
        if qq != 'ds':
            n = norm4(p) / xi(V, qq) * 16 * PI ** 2
            out['C7_' + fl], out['C7p_' + fl] = n / (gs * gs) * g('7gamma' + qq), n / (gs * gs) * g('7pgamma' + qq)
            out['C8_' + fl], out['C8p_' + fl] = n / (gs * gs) * g('8g' + qq), n / (gs * gs) * g('8pg' + qq)
    for ud in CC:
        u, d = U[ud[0]], D[ud[1]]
        for l in LEP:
            for lp in LEP:
                for k, b in CC_FLAVIO.items():
                    out['%s_%s%s%snu%s' % (k, ud[1], ud[0], l, lp)] = -norm4(p) / V[u][d] * g(b + ud + l + lp)
    n = norm4(p)
    return {k: v / n for k, v in out.items()}


def jms_to_eos(env, C, p):
    J = Jms(C)
    e, gs = couplings(p)
    V = ckm(env, p)
    n = norm4(p) / V[2][2] / conj(V[2][1])
    out = {}
    for l in ('e', 'mu'):
        i = LEP[l]
        ch = charged(J, 0, 2, i, i)
        for k, b in {'cVL': '1', 'cVR': '1p', 'cSR': '5', 'cSL': '5p', 'cT': '7p'}.items():
            out['b->u%snu%s::%s' % (l, l, k)] = -norm4(p) / V[0][2] * ch[b]
        f = semilep(J, 1, 2, i, i)
        for k, b in {'c9': '9', "c9'": '9p', 'c10': '10', "c10'": '10p', 'cS': 'S', "cS'": 'Sp', 'cP': 'P',
                     "cP'": 'Pp', 'cT': 'T', 'cT5': 'T5'}.items():
            out['b->s%s%s::%s' % (l, l, k)] = n * 16 * PI ** 2 / (e * e) * f[b]
    mb, ms = p['m_b'], p['m_s']
    d = n * 16 * PI ** 2 / (mb * mb - ms * ms)
    for q, op, g in (('7', 'dgamma', e), ('8', 'dG', gs)):
        x, xp = J(op, 1, 2), J.c(op, 2, 1)
        out['b->s::c' + q] = d / g * (mb * x - ms * xp)
        out["b->s::c%s'" % q] = d / g * (mb * xp - ms * x)
    F = {q: fierz4(J, 'sb' + q) for q in ('uu', 'dd', 'cc', 'ss', 'bb')}
    sm = lambda k, qs=('uu', 'dd', 'cc', 'ss', 'bb'): sum((F[q][k] for q in qs), 0)
    up = ('uu', 'cc')
    h = ('ss', 'bb')
    d1, d2 = F['dd']['1'], F['dd']['2']
    w = {}
    w['1'] = sm('1', up) - 2 / 5. * sm('1', h) - 6 / 5. * d1 + 4 / 5. * d2
    w['2'] = sm('1', up) / 6 + sm('2', up) / 2 - 4 / 15. * sm('1', h) + d1 / 5 - 7 / 15. * d2
    w['3'] = 4 / 15. * sm('3') + 4 / 45. * sm('4') - 4 / 45. * sm('1', h) - 7 / 45. * d1 + d2 / 15
    w['4'] = 8 / 15. * sm('4') - 2 / 15. * sm('1', h) + 4 / 15. * d1 - 2 / 5. * d2
    w['5'] = -1 / 60. * sm('3') - 1 / 180. * sm('4') + sm('1', h) / 45 + 7 / 180. * d1 - d2 / 60
    w['6'] = -1 / 30. * sm('4') + sm('1', h) / 30 - d1 / 15 + d2 / 10
    for k, v in w.items():
        out['b->s::c' + k] = n * v
    return out


def jms_to_formflavor(env, C, p):
    J = Jms(C)
    e, gs = couplings(p)
    out = {}
    for qq, t, i, j in (('bs', 'd', 1, 2), ('bd', 'd', 0, 2), ('sd', 'd', 0, 1), ('cu', 'u', 0, 1)):
        b = df2(J, t, i, j)
        r = {'CVLL': b['1'], 'CSLL': b['2'] + b['3'] / 2, 'CTLL': b['3'] / (-8.), 'CVLR': b['5'] / (-2.),
             'CVRR': b['1p'], 'CSRR': b['2p'] + b['3p'] / 2, 'CTRR': b['3p'] / (-8.), 'CSLR': b['4']}
        for k, v in r.items():
            out['%s_%s' % (k, 2 * qq)] = v
    for dd, s in (('bs', 1), ('bd', 0)):
        r = {'CVLL': J('VedLL', 1, 1, s, 2), 'CVRR': J('VedRR', 1, 1, s, 2), 'CVLR': J('VdeLR', s, 2, 1, 1),
             'CVRL': J('VedLR', 1, 1, s, 2), 'CSLL': J.c('SedRR', 1, 1, 2, s), 'CSRR': J('SedRR', 1, 1, s, 2),
             'CSLR': J('SedRL', 1, 1, s, 2), 'CSRL': J.c('SedRL', 1, 1, 2, s),
             'CTLL': J.c('TedRR', 1, 1, 2, s), 'CTRR': J('TedRR', 1, 1, s, 2)}
        for k, v in r.items():
            out['%s_%smm' % (k, dd)] = v
    for k, op in (('CVLL_sdnn', 'VnudLL'), ('CVRL_sdnn', 'VnudLR')):
        out[k] = (J(op, 0, 0, 0, 1) + J(op, 1, 1, 0, 1) + J(op, 2, 2, 0, 1)) / 3
    for qq, t, i, j in (('sb', 'd', 1, 2), ('db', 'd', 0, 2), ('dd', 'd', 0, 0), ('uu', 'u', 0, 0)):
        out['CAR_' + qq], out['CAL_' + qq] = J(t + 'gamma', i, j) / e, J.c(t + 'gamma', j, i) / e
        out['CGR_' + qq], out['CGL_' + qq] = J(t + 'G', i, j) / gs, J.c(t + 'G', j, i) / gs
    for ll, i, j in (('mt', 1, 2), ('em', 0, 1), ('et', 0, 2)):
        out['CAR_' + ll], out['CAL_' + ll] = J('egamma', i, j) / e, J.c('egamma', j, i) / e
    return out
