"""Registry of EFTs, bases, translators and matchers against a dictionary model."""
from vp import Harness
MISSING = (KeyError, AttributeError)
NAMES = {'EFT': ['E', 'F'], 'Basis': [('E', 'A'), ('F', 'A'), ('E', 'B')],
         'Translator': [('E', 'A', 'B'), ('F', 'A', 'B'), ('E', 'B', 'A')],
         'Matcher': [('E', 'A', 'F', 'A'), ('F', 'A', 'E', 'A')]}


def make(W, cls, name):
    if cls == 'EFT':
        return W.EFT(name, {'s': {}})
    if cls == 'Basis':
        return W.Basis(*name, {'s': {}})
    f = lambda C, s, p: {}
    return getattr(W, cls)(*name, f)


def lookup(c, n):
    try:
        return c[n]
    except MISSING:
        return None


def observe(env, W, model, tag, via=True):
    for cls, names in NAMES.items():
        for n in names:
            got = lookup(getattr(W, cls), n)
            want = model[cls].get(n)
            env.true('%s: %s %s is %s' % (tag, cls, n, 'the last registered one' if want is not None else 'unknown'), got is want)
            if want is not None and via:
                env.true('%s: get_instance %s' % (tag, n), getattr(W, cls).get_instance(n) is want)
    for e, o in model['EFT'].items():
        env.true('%s: bases of %s' % (tag, e), sorted(o.known_bases) == sorted(n[1] for n in model['Basis'] if n[0] == e))
        env.true('%s: translators of %s' % (tag, e), sorted(o.known_translators) == sorted(
            n for n in model['Translator'] if n[0] == e))
    for b, o in model['Basis'].items():
        kt = o.known_translators
        env.true('%s: known translators of %s have from and to' % (tag, b), set(kt) == {'from', 'to'})
        env.true('%s: from %s' % (tag, b), sorted(kt['from']) == sorted(
            n for n in model['Translator'] if n[0] == b[0] and n[1] == b[1]))
        env.true('%s: to %s' % (tag, b), sorted(kt['to']) == sorted(
            n for n in model['Translator'] if n[0] == b[0] and n[2] == b[1]))


def history(classes, k):
    def run(env):
        W = env.W
        W.Translator.clear_all()
        W.Matcher.clear_all()
        model = {c: {} for c in NAMES}
        if len(classes) == 1:      # something else registered, must never interfere
            for c in NAMES:
                if c not in classes:
                    for n in NAMES[c][:2]:
                        model[c][n] = make(W, c, n)
        ops = [(c, 'new', n) for c in classes for n in NAMES[c]] + \
              [(c, 'del', n) for c in classes for n in NAMES[c]] + [(c, 'clear', None) for c in classes]
        for i in range(k):
            c, op, n = ops[env.choice('op%d' % i, len(ops))]
            if op == 'new':
                model[c].pop(n, None)
                model[c][n] = make(W, c, n)
            elif op == 'clear':
                getattr(W, c).clear_all()
                model[c] = {}
            elif n in model[c]:
                if i % 2:
                    del getattr(W, c)[n]
                else:
                    getattr(W, c).del_instance(n)
                del model[c][n]
            else:
                env.raises('step %d: deleting unknown %s %s refused' % (i, c, n), MISSING, getattr(W, c).del_instance, n)
            observe(env, W, model, 'after %d steps' % (i + 1))
    run.__doc__ = 'every history of %d operations on %s' % (k, ', '.join(classes))
    return run


def fresh(env):
    """queries on a fresh package with nothing but one EFT or basis registered"""
    W = env.W
    if env.flag('clear'):
        W.Translator.clear_all()
    if env.flag('eft'):
        e = W.EFT('E', {'s': {}})
        env.true('no bases known', tuple(e.known_bases) == ())
        env.true('no translators known', tuple(e.known_translators) == ())
    else:
        b = W.Basis('E', 'A', {'s': {'x': {}}})
        env.true('no translators known', all(tuple(v) == () for v in b.known_translators.values()))
    env.true('unknown EFT is not found', lookup(W.EFT, 'nope') is None)
    env.true('unknown basis is not found', lookup(W.Basis, ('E', 'nope')) is None)


def decorators(env):
    """@translator / @matcher register the function and return it unchanged"""
    W = env.W
    f = lambda C, s, p: {'o': C['i']}
    x = env.fp('x')
    g = W.translator('E', 'A', 'B')(f)
    h = W.matcher('E', 'A', 'F', 'B')(f)
    env.true('returned unchanged', g is f and h is f)
    t, m = W.Translator['E', 'A', 'B'], W.Matcher['E', 'A', 'F', 'B']
    env.true('registered', t.function is f and m.function is f)
    env.true('attributes', (t.eft, t.from_basis, t.to_basis) == ('E', 'A', 'B') and
             (m.from_eft, m.from_basis, m.to_eft, m.to_basis) == ('E', 'A', 'F', 'B'))
    wc = W.WC('E', 'A', 5, {'i': x})
    env.eq('usable (translate)', wc.translate('B').dict.get('o', 0), x)
    env.eq('usable (match)', wc.match('F', 'B').dict.get('o', 0), x)


ROUTES_T = {('SMEFT', 'Warsaw', 'Warsaw mass'), ('SMEFT', 'Warsaw', 'Warsaw up'), ('SMEFT', 'Warsaw up', 'Warsaw'),
            ('WET', 'JMS', 'flavio'), ('WET-4', 'JMS', 'flavio'), ('WET-3', 'JMS', 'flavio'),
            ('WET', 'Bern', 'flavio'), ('WET', 'flavio', 'Bern'), ('WET-4', 'Bern', 'flavio'), ('WET-4', 'flavio', 'Bern'),
            ('WET-3', 'Bern', 'flavio'), ('WET-3', 'flavio', 'Bern'), ('WET', 'JMS', 'EOS'), ('WET', 'JMS', 'Bern'),
            ('WET-4', 'JMS', 'Bern'), ('WET-3', 'JMS', 'Bern'), ('WET', 'JMS', 'formflavor'), ('WET', 'FlavorKit', 'JMS'),
            ('WET', 'JMS', 'FlavorKit'), ('WET', 'FlavorKit', 'flavio')}
ROUTES_M = {('SMEFT', 'Warsaw up', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'flavio'),
            ('SMEFT', 'Warsaw', 'WET', 'EOS'), ('SMEFT', 'Warsaw', 'WET', 'Bern'), ('WET', 'flavio', 'WET-4', 'flavio'),
            ('WET-4', 'flavio', 'WET-3', 'flavio'), ('WET', 'Bern', 'WET-4', 'Bern'), ('WET-4', 'Bern', 'WET-3', 'Bern'),
            ('WET', 'JMS', 'WET-4', 'JMS'), ('WET-4', 'JMS', 'WET-3', 'JMS'), ('WET-3', 'JMS', 'WET-2', 'JMS')}


def shipped(env):
    """the translators and matchers the package ships are all available after import, under their own names"""
    W = env.W
    for r in sorted(ROUTES_T):
        t = lookup(W.Translator, r)
        env.true('translator %s available' % (r,), t is not None and (t.eft, t.from_basis, t.to_basis) == r)
    for r in sorted(ROUTES_M):
        m = lookup(W.Matcher, r)
        env.true('matcher %s available' % (r,), m is not None and
                 (m.from_eft, m.from_basis, m.to_eft, m.to_basis) == r)
    bases_ = W.EFT('WET', {}).known_translators
    env.true('known translators of WET', set(r for r in ROUTES_T if r[0] == 'WET') <= set(bases_))


HARNESSES = [Harness(history(['EFT', 'Basis'], 2), 'h_eft_basis', max_paths=500),
             Harness(history(['Basis', 'Translator'], 2), 'h_basis_translator', max_paths=500),
             Harness(history(['Translator', 'Matcher'], 2), 'h_translator_matcher', max_paths=500),
             Harness(history(['Basis'], 3), 'h_basis', max_paths=1000),
             Harness(history(['Translator'], 3), 'h_translator', max_paths=1000),
             Harness(history(['EFT'], 3), 'h_eft', max_paths=1000),
             Harness(history(['Matcher'], 3), 'h_matcher', max_paths=1000),
             Harness(history(['Basis', 'Translator'], 3), 'h_basis_translator3', max_paths=4000, tier='thorough'),
             Harness(history(['EFT', 'Basis', 'Translator'], 3), 'h_all3', max_paths=9000, tier='thorough'),
             Harness(history(['Basis'], 4), 'h_basis4', max_paths=4000, tier='thorough'),
             Harness(fresh), Harness(decorators), Harness(shipped)]
ASSUMPTIONS = ['names are drawn from small fixed sets that differ in each component']
BOUNDS = ('All histories of 2 operations (register, delete, clear) over pairs of registries and of 3 over each single registry '
          '(thorough: 3 over three registries, 4 over one), 2-3 names per registry; all lookups and queries after each step.')
