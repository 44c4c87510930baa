"""Reference for the tree-level matching of the SMEFT (up-aligned Warsaw basis) onto the JMS basis,
arXiv:1709.04486 tables 9-21, written element by element."""
import math
import bases
from common import conj
from props.c10 import Orbit

# positions of left-handed down quarks: index -> barred?
DL = {}
for _o, _s in {
    'VddLL': '0*1 2*3', 'V1udLL': '2*3', 'V8udLL': '2*3', 'VedLL': '2*3', 'VnudLL': '2*3',
    'V1ddLR': '0*1', 'V8ddLR': '0*1', 'V1duLR': '0*1', 'V8duLR': '0*1', 'VdeLR': '0*1',
    'S1ddRR': '0*2*', 'S8ddRR': '0*2*', 'V1udduLR': '1', 'V8udduLR': '1', 'VnueduLL': '2*',
    'SedRR': '2*', 'TedRR': '2*', 'SnueduRR': '2*', 'TnueduRR': '2*', 'S1udRR': '2*', 'S8udRR': '2*',
    'S1udduRR': '2*', 'S8udduRR': '2*', 'SedRL': '3', 'dgamma': '0*', 'dG': '0*',
    'SduuLL': '0', 'SduuLR': '0', 'SuddLL': '12', 'SdudRL': '2'}.items():
    _s = _s.replace(' ', '')
    DL[_o] = [(int(ch), _s[k + 1:k + 2] == '*') for k, ch in enumerate(_s) if ch != '*']


class EW:
    """electroweak quantities for given real shifts"""

    def __init__(self, p, ll1221, phil3_11, phil3_22, phiWB):
        r2 = math.sqrt(2)
        G = p['GF'] - r2 / 4 * (-2 * ll1221 + 2 * phil3_22 + 2 * phil3_11)
        self.v = v = math.sqrt(1 / r2 / abs(G))
        eps = phiWB * v ** 2
        g2 = 2 * p['m_W'] / v
        e = math.sqrt(4 * math.pi * p['alpha_e'])
        g1 = e * g2 / math.sqrt(g2 ** 2 - e ** 2) + e ** 2 * g2 / (g2 ** 2 - e ** 2) * eps
        n = math.sqrt(g1 ** 2 + g2 ** 2)
        f = (g2 ** 2 - g1 ** 2) / n ** 2
        self.s = s = g1 / n * (1 + eps / 2 * g2 / g1 * f)
        self.c = c = g2 / n * (1 - eps / 2 * g1 / g2 * f)
        eb = g2 * s - c * g2 * eps / 2
        gz = eb / (s * c) * (1 + n ** 2 / (2 * g1 * g2) * eps)
        self.W = g2 ** 2 / (2 * p['m_W'] ** 2)
        self.Z = gz ** 2 / p['m_Z'] ** 2


def table(C, w):
    """op -> element function; C: name -> Orbit or number, w: EW"""
    d = lambda i, j: 1 if i == j else 0
    v2, s2 = w.v ** 2, w.s ** 2
    Z, Wc = w.Z, w.W
    A = lambda n: C[n]
    nu = lambda i, j: d(i, j) * 0.5 - v2 / 2 * A('phil1')[i, j] + v2 / 2 * A('phil3')[i, j]
    el = lambda i, j: d(i, j) * (-0.5 + s2) - v2 / 2 * A('phil1')[i, j] - v2 / 2 * A('phil3')[i, j]
    er = lambda i, j: d(i, j) * s2 - v2 / 2 * A('phie')[i, j]
    ul = lambda i, j: d(i, j) * (0.5 - 2 / 3. * s2) - v2 / 2 * A('phiq1')[i, j] + v2 / 2 * A('phiq3')[i, j]
    ur = lambda i, j: d(i, j) * (-2 / 3. * s2) - v2 / 2 * A('phiu')[i, j]
    dl = lambda i, j: d(i, j) * (-0.5 + s2 / 3) - v2 / 2 * A('phiq1')[i, j] - v2 / 2 * A('phiq3')[i, j]
    dr = lambda i, j: d(i, j) * s2 / 3 - v2 / 2 * A('phid')[i, j]
    wl = lambda i, j: d(i, j) + v2 * A('phil3')[i, j]
    wq = lambda i, j: d(i, j) + v2 * A('phiq3')[i, j]
    wr = lambda i, j: v2 / 2 * A('phiud')[i, j]
    k = w.v / math.sqrt(2)
    T = {}
    T['egamma'] = lambda i, j: k * (w.c * A('eB')[i, j] - w.s * A('eW')[i, j])
    T['ugamma'] = lambda i, j: k * (w.c * A('uB')[i, j] + w.s * A('uW')[i, j])
    T['dgamma'] = lambda i, j: k * (w.c * A('dB')[i, j] - w.s * A('dW')[i, j])
    T['uG'] = lambda i, j: k * A('uG')[i, j]
    T['dG'] = lambda i, j: k * A('dG')[i, j]

    def zz(base, x, y, f=1.0):
        return lambda p, r, s, t: base(p, r, s, t) - f * Z * x(p, r) * y(s, t)
    g = lambda *ns: (lambda p, r, s, t: sum((sg * A(n)[p, r, s, t] for sg, n in ns), 0))

    def sym(n, x):
        return lambda p, r, s, t: A(n)[p, r, s, t] - Z / 4 * (x(p, r) * x(s, t) + x(p, t) * x(s, r))
    T['VnunuLL'], T['VeeLL'], T['VeeRR'] = sym('ll', nu), sym('ll', el), sym('ee', er)
    T['VnueLL'] = lambda p, r, s, t: A('ll')[p, r, s, t] + A('ll')[s, t, p, r] \
        - Wc * wl(p, t) * conj(wl(r, s)) - Z * nu(p, r) * el(s, t)
    T['VnuuLL'] = zz(g((1, 'lq1'), (1, 'lq3')), nu, ul)
    T['VnudLL'] = zz(g((1, 'lq1'), (-1, 'lq3')), nu, dl)
    T['VeuLL'] = zz(g((1, 'lq1'), (-1, 'lq3')), el, ul)
    T['VedLL'] = zz(g((1, 'lq1'), (1, 'lq3')), el, dl)
    T['VnueduLL'] = lambda p, r, s, t: 2 * A('lq3')[p, r, s, t] - Wc * wl(p, r) * conj(wq(t, s))
    T['VuuLL'] = zz(g((1, 'qq1'), (1, 'qq3')), ul, ul, 0.5)
    T['VddLL'] = zz(g((1, 'qq1'), (1, 'qq3')), dl, dl, 0.5)
    T['V1udLL'] = lambda p, r, s, t: A('qq1')[p, r, s, t] + A('qq1')[s, t, p, r] - A('qq3')[p, r, s, t] - A('qq3')[s, t, p, r] \
        + 2 / 3. * (A('qq3')[p, t, s, r] + A('qq3')[s, r, p, t]) - Wc / 3 * wq(p, t) * conj(wq(r, s)) - Z * ul(p, r) * dl(s, t)
    T['V8udLL'] = lambda p, r, s, t: 4 * (A('qq3')[p, t, s, r] + A('qq3')[s, r, p, t]) - 2 * Wc * wq(p, t) * conj(wq(r, s))
    T['VeuRR'], T['VedRR'] = zz(g((1, 'eu')), er, ur), zz(g((1, 'ed')), er, dr)
    T['VuuRR'], T['VddRR'] = zz(g((1, 'uu')), ur, ur, 0.5), zz(g((1, 'dd')), dr, dr, 0.5)
    T['V1udRR'] = lambda p, r, s, t: A('ud1')[p, r, s, t] - Wc / 3 * wr(p, t) * conj(wr(r, s)) - Z * ur(p, r) * dr(s, t)
    T['V8udRR'] = lambda p, r, s, t: A('ud8')[p, r, s, t] - 2 * Wc * wr(p, t) * conj(wr(r, s))
    for o, n, x, y in (('VnueLR', 'le', nu, er), ('VeeLR', 'le', el, er), ('VnuuLR', 'lu', nu, ur), ('VnudLR', 'ld', nu, dr),
                       ('VeuLR', 'lu', el, ur), ('VedLR', 'ld', el, dr), ('VueLR', 'qe', ul, er), ('VdeLR', 'qe', dl, er),
                       ('V1uuLR', 'qu1', ul, ur), ('V1udLR', 'qd1', ul, dr), ('V1duLR', 'qu1', dl, ur), ('V1ddLR', 'qd1', dl, dr)):
        T[o] = zz(g((1, n)), x, y)
    for o, n in (('V8uuLR', 'qu8'), ('V8udLR', 'qd8'), ('V8duLR', 'qu8'), ('V8ddLR', 'qd8'), ('SedRL', 'ledq'),
                 ('SnueduRL', 'ledq'), ('SnueduRR', 'lequ1'), ('TnueduRR', 'lequ3'), ('S1udRR', 'quqd1'), ('S8udRR', 'quqd8'),
                 ('SduuRL', 'duql'), ('SduuRR', 'duue')):
        T[o] = g((1, n))
    for o, n in (('SeuRR', 'lequ1'), ('TeuRR', 'lequ3'), ('SdudRL', 'duql')):
        T[o] = g((-1, n))
    T['VnueduLR'] = lambda p, r, s, t: -Wc * wl(p, r) * conj(wr(t, s))
    T['V1udduLR'] = lambda p, r, s, t: -Wc * wq(p, r) * conj(wr(t, s))
    T['S1udduRR'] = lambda p, r, s, t: -A('quqd1')[s, t, p, r]
    T['S8udduRR'] = lambda p, r, s, t: -A('quqd8')[s, t, p, r]
    for o, n in (('SuddLL', 'qqql'), ('SduuLL', 'qqql'), ('SduuLR', 'qque')):
        T[o] = (lambda n: lambda p, r, s, t: -A(n)[p, r, s, t] - A(n)[r, p, s, t])(n)
    return T


class Zero:
    def __getitem__(self, i):
        return 0


def match(d, p, V, ew, keys):
    """d: independent up-aligned coefficients; ew: their concrete electroweak entries; keys: JMS names wanted"""
    arr = {n: Orbit(n, d) for n in bases.SMEFT}
    zero = {n: Zero() for n in bases.SMEFT}
    full = table(arr, EW(p, *ew))
    sm = table(zero, EW(p, 0, 0, 0, 0))
    memo = {}

    def elem(o, ind):
        k = (o, ind)
        if k not in memo:
            memo[k] = full[o](*ind) - sm[o](*ind) if o in full else 0
        return memo[k]

    def rotated(o, ind, pos):
        if not pos:
            return elem(o, ind)
        (q, bar), rest = pos[0], pos[1:]
        kk = (o, ind, len(pos))
        if kk in memo:
            return memo[kk]
        s = 0
        for i in range(3):
            f = V[i][ind[q]]
            s = s + (conj(f) if bar else f) * rotated(o, ind[:q] + (i,) + ind[q + 1:], rest)
        memo[kk] = s
        return s
    out = {}
    for k in keys:
        if '_' not in k:
            out[k] = d.get(k, 0)
            continue
        o, ind = k.split('_')
        ind = tuple(int(x) - 1 for x in ind)
        # rotate the last positions first so that partial sums are shared
        out[k] = rotated(o, ind, DL.get(o, [])[::-1])
    return out
