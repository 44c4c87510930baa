"""EFT and basis definitions used by the harnesses.

wcxf/bases is an empty git submodule in this checkout, so the harnesses register
the EFTs and bases themselves, in the WCxf naming convention the translators and
matchers are written against.  Representatives of symmetry-related coefficients
are the lexicographically smallest index tuples."""
import itertools

N = {'u': 2, 'd': 3, 'e': 3, 'n': 3, 'U': 3}   # 'U': three up-type flavours (SMEFT)

# ---------------------------------------------------------------- symmetries
# permutation p with conj flag: C[i] == (conj) C[i permuted by p]
HERM = [((1, 0, 3, 2), True)]
CURR = [((2, 3, 0, 1), False)]
FIERZ = [((0, 3, 2, 1), False)]
NONE = []


def orbit(ind, gens):
    """{index: conj?} orbit of an index tuple; self-conjugate => also returns real flag"""
    seen = {(ind, False)}
    todo = [(ind, False)]
    while todo:
        i, c = todo.pop()
        for p, cc in gens:
            n = (tuple(i[q] for q in p), c ^ cc)
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return seen


def reps(dims, gens):
    """list of (index, is_real)"""
    out = []
    for ind in itertools.product(*[range(d) for d in dims]):
        o = orbit(ind, gens)
        if min(i for i, c in o) == ind:
            out.append((ind, (ind, True) in o))
    return out


def nm(name, ind):
    return name + '_' + ''.join(str(i + 1) for i in ind)


# ---------------------------------------------------------------- JMS
JMS = {}


def _j(fields, gens, *names):
    for n in names:
        JMS[n] = (fields, gens)


_j('ee', NONE, 'egamma'); _j('uu', NONE, 'ugamma', 'uG'); _j('dd', NONE, 'dgamma', 'dG')
_j('nnnn', HERM + CURR + FIERZ, 'VnunuLL')
_j('eeee', HERM + CURR + FIERZ, 'VeeLL', 'VeeRR')
_j('nnee', HERM, 'VnueLL', 'VnueLR'); _j('eeee', HERM, 'VeeLR')
_j('nnuu', HERM, 'VnuuLL', 'VnuuLR'); _j('nndd', HERM, 'VnudLL', 'VnudLR')
_j('eeuu', HERM, 'VeuLL', 'VeuRR', 'VeuLR'); _j('eedd', HERM, 'VedLL', 'VedRR', 'VedLR')
_j('uuee', HERM, 'VueLR'); _j('ddee', HERM, 'VdeLR')
_j('uuuu', HERM + CURR, 'VuuLL', 'VuuRR'); _j('dddd', HERM + CURR, 'VddLL', 'VddRR')
_j('uudd', HERM, 'V1udLL', 'V8udLL', 'V1udRR', 'V8udRR', 'V1udLR', 'V8udLR')
_j('uuuu', HERM, 'V1uuLR', 'V8uuLR'); _j('dddd', HERM, 'V1ddLR', 'V8ddLR')
_j('dduu', HERM, 'V1duLR', 'V8duLR')
_j('uddu', NONE, 'V1udduLR', 'V8udduLR')
_j('nedu', NONE, 'VnueduLL', 'VnueduLR', 'SnueduRL', 'SnueduRR', 'TnueduRR')
_j('eeuu', NONE, 'SeuRL', 'SeuRR', 'TeuRR'); _j('eedd', NONE, 'SedRL', 'SedRR', 'TedRR')
_j('eeee', CURR, 'SeeRR')
_j('uuuu', CURR, 'S1uuRR', 'S8uuRR'); _j('dddd', CURR, 'S1ddRR', 'S8ddRR')
_j('uudd', NONE, 'S1udRR', 'S8udRR'); _j('uddu', NONE, 'S1udduRR', 'S8udduRR')
# baryon number violating
_j('uddn', NONE, 'SuddLL'); _j('dudn', NONE, 'SdudRL')
_j('duue', NONE, 'SduuLL', 'SduuLR', 'SduuRL', 'SduuRR')
JMS_SCALAR = ['G', 'Gtilde']


def jms(nu=2, nd=3):
    """names -> real?"""
    d = {k: True for k in JMS_SCALAR}
    dim = dict(N, u=nu, d=nd)
    for k, (f, g) in JMS.items():
        for ind, real in reps([dim[x] for x in f], g):
            d[nm(k, ind)] = real
    return d


# ---------------------------------------------------------------- Bern, flavio, EOS...
L = ['e', 'mu', 'tau']
BERN_QQ = ['sb', 'db', 'ds']
CC = ['cb', 'ub', 'us', 'cs', 'cd', 'ud']
BERN_IND = ['sbdd', 'dbss', 'dsbb']
BERN_RED = ['sbss', 'dbdd', 'dbbb', 'sbbb', 'dbds', 'sbsd', 'dsss', 'dsdd']


def bern(quarks='udscb'):
    out = []
    ok = lambda s: all(q in quarks for q in s)
    for qq in BERN_QQ:
        if ok(qq):
            out += [p + 2 * qq for p in ('1', '2', '3', '4', '5', '1p', '2p', '3p')]
            out += [p + qq for p in ('7gamma', '8g', '7pgamma', '8pg')]
            for l in L:
                for lp in L:
                    out += [p + qq + l + lp for p in ('1', '3', '5', '7', '9', '1p', '3p', '5p',
                                                      '7p', '9p', 'nu1', 'nu1p')]
            for u1 in 'uc':
                for u2 in 'uc':
                    if ok(u1 + u2):
                        out += ['%d%s%s' % (n, p, qq + u1 + u2) for n in range(1, 11) for p in ('', 'p')]
    for q in BERN_IND:
        if ok(q):
            out += ['%d%s%s' % (n, p, q) for n in range(1, 11) for p in ('', 'p')]
    for q in BERN_RED:
        if ok(q):
            out += ['%d%s%s' % (n, p, q) for n in (1, 3, 5, 7, 9) for p in ('', 'p')]
    for ud in CC:
        if ok(ud):
            out += [p + ud + l + lp for l in L for lp in L for p in ('1', '5', '1p', '5p', '7p')]
    return out


def flavio(quarks='udscb'):
    ok = lambda s: all(q in quarks for q in s)
    out = []
    for qq in ('bs', 'bd', 'sd'):
        if ok(qq):
            out += ['C%s_%s' % (p, 2 * qq) for p in ('VLL', 'SLL', 'TLL', 'VLR', 'VRR', 'SRR', 'TRR', 'SLR')]
            out += ['C%s_%snu%snu%s' % (p, qq, l, lp) for p in 'LR' for l in L for lp in L]
            if qq != 'sd':
                out += ['C%s_%s%s%s' % (p, qq, l, lp) for l in L for lp in L for p in
                        ('9', '9p', '10', '10p', 'S', 'Sp', 'P', 'Pp')]
                out += ['C%s_%s' % (p, qq) for p in ('7', '8', '7p', '8p')]
    for ud in CC:
        if ok(ud):
            out += ['C%s_%s%s%snu%s' % (p, ud[1], ud[0], l, lp) for l in L for lp in L for p in
                    ('VL', 'VR', 'SR', 'SL', 'T')]
    return out


def eos():
    out = []
    for l in ('e', 'mu'):
        out += ['b->u%snu%s::c%s' % (l, l, p) for p in ('VL', 'VR', 'SL', 'SR', 'T')]
        out += ['b->s%s%s::c%s' % (l, l, p) for p in ('9', "9'", '10', "10'", 'S', "S'", 'P', "P'", 'T', 'T5')]
    out += ['b->s::c%s' % p for p in ('1', '2', '3', '4', '5', '6', '7', "7'", '8', "8'")]
    return out


def formflavor():
    out = []
    for qq in ('bs', 'bd', 'sd', 'cu'):
        out += ['C%s_%s' % (p, 2 * qq) for p in ('VLL', 'SLL', 'TLL', 'VLR', 'VRR', 'SRR', 'TRR', 'SLR')]
    for dd in ('bs', 'bd'):
        out += ['C%s_%smm' % (p, dd) for p in ('VLL', 'VRR', 'VLR', 'VRL', 'SLL', 'SRR', 'SLR', 'SRL', 'TLL', 'TRR')]
    out += ['CVLL_sdnn', 'CVRL_sdnn']
    for qq in ('sb', 'db', 'uu', 'dd'):
        out += ['C%s_%s' % (p, qq) for p in ('AR', 'AL', 'GR', 'GL')]
    for ll in ('mt', 'em', 'et'):
        out += ['C%s_%s' % (p, ll) for p in ('AR', 'AL')]
    return out


# ---------------------------------------------------------------- SMEFT
SM0 = ["G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG", "phiB", "phiW", "phiWB",
       "phiGtilde", "phiBtilde", "phiWtilde", "phiWtildeB"]
H2 = [((1, 0), True)]
S2 = [((1, 0), False)]
QQUE = [((1, 0, 2, 3), False)]
SMEFT = {}      # name -> (field string, generators); lower case = field, 'bar' by position
for _n in ("uphi", "dphi", "ephi", "eW", "eB", "uG", "uW", "uB", "dG", "dW", "dB", "phiud"):
    SMEFT[_n] = NONE
for _n in ("phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid"):
    SMEFT[_n] = H2
SMEFT['llphiphi'] = S2
for _n in ("ledq", "quqd1", "quqd8", "lequ1", "lequ3", "duql", "duue"):
    SMEFT[_n] = NONE
for _n in ("ll", "qq1", "qq3", "uu", "dd"):
    SMEFT[_n] = HERM + CURR
for _n in ("lq1", "lq3", "eu", "ed", "ud1", "ud8", "le", "lu", "ld", "qe", "qu1", "qd1", "qu8", "qd8"):
    SMEFT[_n] = HERM
SMEFT['ee'] = HERM + CURR + FIERZ
SMEFT['qque'] = QQUE
SMEFT['qqql'] = None
TWO = {"uphi", "dphi", "ephi", "eW", "eB", "uG", "uW", "uB", "dG", "dW", "dB", "phiud", "phil1", "phil3",
       "phie", "phiq1", "phiq3", "phiu", "phid", "llphiphi"}
QQQL_DEP = ['100', '110', '200', '201', '210', '211', '220', '221']


def smeft_reps(name):
    if name == 'qqql':
        return [(i, False) for i in itertools.product(range(3), repeat=4)
                if ''.join(map(str, i[:3])) not in QQQL_DEP]
    return reps((3,) * (2 if name in TWO else 4), SMEFT[name])


_smeft_cache = {}


def smeft():
    if not _smeft_cache:
        d = {k: True for k in SM0}
        for n in SMEFT:
            for ind, real in smeft_reps(n):
                d[nm(n, ind)] = real
        _smeft_cache.update(d)
    return dict(_smeft_cache)


# ---------------------------------------------------------------- registration
def _sect(names, real=None):
    return {'all': {n: ({'real': True} if real and real.get(n) else {}) for n in names}}


_cache = {}


def keys(eft, basis):
    k = (eft, basis)
    if k not in _cache:
        q = {'WET': 'udscb', 'WET-4': 'udsc', 'WET-3': 'uds', 'WET-2': 'ud'}.get(eft)
        if eft == 'SMEFT':
            r = smeft()
        elif basis == 'JMS':
            r = jms(sum(x in q for x in 'uc'), sum(x in q for x in 'dsb'))
        elif basis == 'Bern':
            r = dict.fromkeys(bern(q), False)
        elif basis == 'flavio':
            r = dict.fromkeys(flavio(q), False)
        elif basis == 'EOS':
            r = dict.fromkeys(eos(), False)
        elif basis == 'formflavor':
            r = dict.fromkeys(formflavor(), False)
        else:
            raise KeyError(k)
        _cache[k] = r
    return _cache[k]


ALL = [('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up'), ('SMEFT', 'Warsaw mass'),
       ('WET', 'JMS'), ('WET', 'Bern'), ('WET', 'flavio'), ('WET', 'EOS'), ('WET', 'formflavor'),
       ('WET-4', 'JMS'), ('WET-4', 'Bern'), ('WET-4', 'flavio'),
       ('WET-3', 'JMS'), ('WET-3', 'Bern'), ('WET-3', 'flavio'), ('WET-2', 'JMS')]


def register(W, which=None):
    for eft in ('SMEFT', 'WET', 'WET-4', 'WET-3', 'WET-2'):
        W.EFT(eft, {'all': {}})
    for eft, b in ALL:
        if which is None or (eft, b) in which:
            r = keys(eft, b)
            W.Basis(eft, b, _sect(r, r))
