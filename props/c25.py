"""Command line tools: exit status and output."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
from vp import Harness
from props.c02 import same
import bases


class Out(io.StringIO):
    """captured standard output; stays readable after the program closes it"""
    def close(self):
        pass


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def run(env, fn, argv, stdin=''):
    """what a console script does: sys.exit(main()); -> exit status, standard output"""
    cli = env.module('wcxf.cli')
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = Out()
    sys.argv, sys.stdin, sys.stdout, sys.stderr = [fn] + argv, io.StringIO(stdin), out, io.StringIO()
    try:
        try:
            r = getattr(cli, fn)()
        except SystemExit as e:
            r = e.code
        except Exception as e:
            if type(e).__name__ == 'Unsupported':
                raise
            r = 'uncaught %s' % type(e).__name__
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
    return (0 if r is None else r if isinstance(r, int) else 1), out.getvalue()


def source(env, text):
    """the input as argument or on standard input -> extra arguments, standard input"""
    k = env.choice('input from', 3)
    if k == 0:
        with open('in.txt', 'w') as f:
            f.write(text)
        return ['in.txt'], ''
    return (['-'] if k == 1 else []), text


def sink(env):
    if env.flag('output file'):
        return ['--output', 'out.txt'], True
    return [], False


def output(tofile, stdout):
    if not tofile:
        return stdout
    if not os.path.exists('out.txt'):
        return ''
    with open('out.txt') as f:
        return f.read()


def dumps(env, obj, fmt):
    env.W
    if fmt == 'json':
        import json as j
        lib = env.pkg.stubs['json'] if env.sym else j
        return lib.dumps(obj)
    import yaml as y
    lib = env.pkg.stubs['yaml'] if env.sym else y
    return lib.dump(obj, default_flow_style=False)


def loads(env, text, fmt):
    env.W
    if fmt == 'json':
        import json as j
        lib = env.pkg.stubs['json'] if env.sym else j
        return lib.loads(text)
    import yaml as y
    lib = env.pkg.stubs['yaml'] if env.sym else y
    return lib.load(text)


def convert(env):
    """`wcxf convert`: any document comes out with the same content in the other format; an unreadable document or an unknown
    format is reported in the exit status"""
    with scratch():
        fmt = ['json', 'JSON', 'yaml', 'Yaml', 'xml', ''][env.choice('format', 6)]
        doc = {'eft': 'E', 'scale': env.fp('s'), 'values': {'a_1': env.fp('x'), 'b': {'Re': env.fp('y'), 'Im': 1e-30}, 'c': '1e-3'},
               'list': [1, 'on', None, True, []], 'metadata': {'d': 'l1\nl2: {x}', 'e': {}}}
        infmt = 'json' if fmt.lower() == 'yaml' else 'yaml'
        if fmt.lower() not in ('json', 'yaml') and env.flag('JSON document'):
            infmt = 'json'
        bad = env.flag('unreadable document')
        text = {'yaml': 'a: [1, {', 'json': '{"a": 1,'}[infmt] if bad else dumps(env, doc, infmt)
        args, stdin = source(env, text)
        o, tofile = sink(env)
        code, out = run(env, 'wcxf_cli', ['convert', fmt] + args + o, stdin)
        known = fmt.lower() in ('json', 'yaml')
        env.true('convert %r: exit status' % fmt, (code == 0) == (known and not bad))
        if known and not bad:
            text = output(tofile, out)
            env.true('output produced', bool(text.strip()))
            env.true('json is json, yaml is yaml', text.lstrip().startswith('{') == (fmt.lower() == 'json'))
            same(env, 'document', loads(env, text, fmt.lower()), doc)


def conversion(env):
    """`wcxf translate` and `wcxf match`: the output file is the library's result; a missing route, unreadable input or unknown
    format is reported in the exit status"""
    with scratch():
        W = env.W
        match = env.flag('match')
        args = []
        seen = []

        def fn(C, scale, par):
            seen.append((dict(C), scale, par))
            return {'k': C['x'], 'l': C['y'], 'n': 0}
        if match:
            W.Matcher('E', 'A', 'F', 'B', fn)
        else:
            W.Translator('E', 'A', 'B', fn)
        target = ['B', 'C'][env.choice('target', 2)]
        wc = {'eft': 'E', 'basis': 'A', 'scale': env.fp('s'), 'values': {'x': env.fp('x'), 'y': {'Re': env.fp('re'), 'Im': env.fp('im')}}}
        bad = env.flag('unreadable input')
        text = 'eft: [' if bad else dumps(env, wc, ['json', 'yaml'][env.choice('input format', 2)])
        a, stdin = source(env, text)
        o, tofile = sink(env)
        fmt = [None, 'json', 'YAML', 'xml'][env.choice('format', 4)]
        argv = (['match', 'F', target] if match else ['translate', target]) + a + o + (['--format', fmt] if fmt else [])
        code, out = run(env, 'wcxf_cli', argv, stdin)
        ok = not bad and target == 'B' and fmt != 'xml'
        env.true('exit status (%s)' % ' '.join(argv), (code == 0) == ok)
        if not ok:
            return
        env.true('conversion function used once', len(seen) == 1)
        text = output(tofile, out)
        env.true('format', text.lstrip().startswith('{') == ((fmt or 'json') == 'json'))
        r = W.WC.load(text)
        env.true('eft and basis', (r.eft, r.basis) == ('F' if match else 'E', 'B'))
        env.eq('scale', r.scale, wc['scale'])
        exp = {}
        if wc['values']['x'] != 0:
            exp['k'] = (wc['values']['x'], 0.0)
        if wc['values']['y']['Re'] != 0 or wc['values']['y']['Im'] != 0:
            exp['l'] = (wc['values']['y']['Re'], wc['values']['y']['Im'])
        env.same_keys('coefficients', r.dict, exp)
        for k, v in exp.items():
            if k in r.dict:
                env.eq(k + ' re', r.dict[k].real, v[0])
                env.eq(k + ' im', r.dict[k].imag, v[1])


def validate(env):
    """`wcxf validate`: success is reported, in text and exit status, exactly for valid files"""
    with scratch():
        W = env.W
        W.EFT('E', {'s1': {}, 's2': {}})
        W.Basis('E', 'B', {'s1': {'a': {'tex': 'x'}, 'b': {'real': True}}, 's2': {'c': None}})
        typ = ['eft', 'basis', 'wc', 'EFT', 'other', ''][env.choice('type', 6)]
        s = env.fp('s')
        docs = {
            'eft': [({'eft': 'E2', 'sectors': {'t': {}}}, True), ({'eft': 'E2', 'sectors': {'t': {}}, 'metadata': {'x': s}}, True),
                    ({'eft': 'E2'}, False), ({'sectors': {}}, False)],
            'basis': [({'eft': 'E', 'basis': 'N', 'sectors': {'s1': {'p': {}}}}, True),
                      ({'eft': 'E', 'basis': 'N', 'sectors': {'s1': {'p': {}}}, 'parent': 'B'}, True),
                      ({'eft': 'E', 'basis': 'N', 'sectors': {'s1': {'p': {}}}, 'parent': 'X'}, False),
                      ({'eft': 'E', 'basis': 'N', 'sectors': {'s3': {'p': {}}}}, False),
                      ({'eft': 'X', 'basis': 'N', 'sectors': {'s1': {'p': {}}}}, False),
                      ({'eft': 'E', 'basis': 'N', 'sectors': {'s1': {'p': {}}, 's2': {'p': {}}}}, False),
                      ({'eft': 'E', 'basis': 'N', 'sectors': {'s2': {'a': {}}}, 'parent': 'B'}, False),
                      ({'eft': 'E', 'basis': 'N'}, False)],
            'wc': [({'eft': 'E', 'basis': 'B', 'scale': s, 'values': {'a': s, 'c': {'Re': s, 'Im': 1}}}, True),
                   ({'eft': 'E', 'basis': 'B', 'scale': s, 'values': {}}, True),
                   ({'eft': 'E', 'basis': 'B', 'scale': s, 'values': {'a': s, 'd': s}}, False),
                   ({'eft': 'E', 'basis': 'X', 'scale': s, 'values': {'a': s}}, False),
                   ({'eft': 'X', 'basis': 'B', 'scale': s, 'values': {'a': s}}, False),
                   ({'eft': 'E', 'basis': 'B', 'values': {'a': s}}, False),
                   ({'eft': 'E', 'basis': 'B', 'scale': 'high', 'values': {'a': s}}, False)]}
        docs = docs.get(typ) or [(d[0][0], False) for d in docs.values()]      # unknown type: valid documents of each kind
        doc, valid = docs[env.choice('document', len(docs))]
        args, stdin = source(env, dumps(env, doc, ['json', 'yaml'][env.choice('input format', 2)]))
        code, out = run(env, 'wcxf_cli', ['validate', typ] + args, stdin)
        env.true('exit status of validate %s %s' % (typ, sorted(doc)), (code == 0) == valid)
        env.true('message of validate %s %s' % (typ, sorted(doc)), ('Validation successful' in out) == valid)


SM = '''"@metadata@":
    wcxf-relevant: true
"b->s::c1":
    central: -0.29
    min: -0.3
    max: -0.28
"b->smumu::Re{c9}":
    central: +4.27
    min: +4.2
    max: +4.3
"b->smumu::Im{c9}":
    central: 0.0
    min: 0.0
    max: 0.0
'''


def eos(env):
    """`wcxf2eos`: SM plus NP values arrive in the chosen place; invalid input or an unusable destination is reported"""
    with scratch() as d:
        W = env.W
        W.EFT('WET', {'sb': {}})
        W.Basis('WET', 'EOS', {'sb': {'b->s::c1': {'real': True}, 'b->smumu::c9': {}}})
        os.makedirs('pre/share/eos/parameters')
        with open('pre/share/eos/parameters/x.yaml', 'w') as f:
            f.write(SM)
        x = env.fp('x')
        re, im = (env.fp('re'), 0.0) if env.flag('real') else (-0.75, 1.25)
        doc = {'eft': 'WET', 'basis': 'EOS', 'scale': 4.2, 'values': {'b->s::c1': x, 'b->smumu::c9': {'Re': re, 'Im': im} if im else re}}
        invalid = env.choice('defect', 3)
        if invalid == 1:
            doc['basis'] = 'flavio'
        elif invalid == 2:
            doc['values']['C9_bsmumu'] = 1.0
        args, stdin = source(env, dumps(env, doc, 'json'))
        o, tofile = sink(env)
        home = env.choice('eoshome', 3)      # none, usable, without parameters directory
        h = []
        if home:
            h = ['--eoshome', os.path.join(d, 'home')]
            os.makedirs('home/parameters' if home == 1 else 'home')
        code, out = run(env, 'eos', ['--eosprefix', os.path.join(d, 'pre')] + args + o + h, stdin)
        ok = not invalid and not (home and tofile) and home != 2
        env.true('exit status (defect %d, eoshome %d, output %s)' % (invalid, home, tofile), (code == 0) == ok)
        if not ok:
            return
        if home:
            env.true('parameter file written', os.path.exists('home/parameters/wcxf.yaml'))
            with open('home/parameters/wcxf.yaml') as f:
                text = f.read()
        else:
            text = output(tofile, out)
        r = loads(env, text, 'yaml')
        want = {'b->s::c1': -0.29 + x, 'b->smumu::Re{c9}': 4.27 + re, 'b->smumu::Im{c9}': 0.0 + im}
        env.same_keys('parameters', r, want)
        for k, v in want.items():
            if k in r:
                for q in ('central', 'min', 'max'):
                    env.eq('%s %s' % (k, q), r[k][q], v)


def card(text):
    """LHA text -> {(block, indices): value}"""
    d, cur = {}, None
    for l in text.split('\n'):
        l = l.split('#')[0].split()
        if l and l[0].lower() == 'block':
            cur = l[1].lower()
        elif l and l[0].lower() == 'decay':
            d['decay', l[1]] = l[2]
        elif l:
            d[(cur,) + tuple(l[:-1])] = l[-1]
    return d


def close(a, b):
    try:
        a, b = float(a), float(b)
    except ValueError:
        return a == b
    return abs(a - b) <= 1e-5 * abs(b)


def smeftsim(env):
    """`wcxf2smeftsim`: the written card is the library's card for the chosen options; invalid input is reported; a file in another
    basis is converted only on request"""
    with scratch():
        W = env.W
        W.EFT('SMEFT', {'dB=dL=0': {}})
        W.Basis('SMEFT', 'Warsaw mass', {'dB=dL=0': {'G': {'real': True}, 'uphi_33': {}}})
        W.Basis('SMEFT', 'Warsaw', {'dB=dL=0': {'G': {'real': True}, 'uphi_33': {}}})
        vals = [{'G': 1e-7}, {'G': -2e-7, 'uphi_33': {'Re': 1e-7, 'Im': -1e-7}}][env.choice('values', 2)]
        doc = {'eft': 'SMEFT', 'basis': 'Warsaw mass', 'scale': 1000, 'values': dict(vals)}
        defect = env.choice('defect', 3)
        key = ''
        if defect == 1:
            doc['values']['nonsense'] = 1
        elif defect == 2:
            doc['basis'] = 'Warsaw'
            key = ['i', 'I', 'q', ''][env.choice('key', 4)]
        with open('in.json', 'w') as f:
            f.write(dumps(env, doc, ['json', 'yaml'][env.choice('input format', 2)]))
        argv = ['in.json']
        model, scheme, lam, dest = 'A', 'alpha', 1000., 'wcxf2smeftsim_param_card.dat'
        k = env.choice('options', 8)
        if k == 4:
            argv += ['--model-set', 'A', '--input-scheme', 'alpha', '--cutoff-scale', '1e3', '--output', 'other.dat']
            dest = 'other.dat'
        elif k > 4:      # options without meaning are refused
            bad = [['--model-set', 'C'], ['--input-scheme', 'gf'], ['--cutoff-scale', 'high']][k - 5]
            code, out = run(env, 'smeftsim', argv + bad, key + '\n')
            env.true('%s is refused' % ' '.join(bad), code != 0)
            env.true('no card after %s' % ' '.join(bad), not os.path.exists(dest))
            return
        if k == 1:
            argv += ['--model-set', 'B']
            model = 'B'
        elif k == 2:
            argv += ['--input-scheme', 'mw', '--output', 'card.dat']
            scheme, dest = 'mw', 'card.dat'
        elif k == 3:
            argv += ['--cutoff-scale', '2500', '--model-set', 'B', '--input-scheme', 'mw']
            lam, model, scheme = 2500., 'B', 'mw'
        code, out = run(env, 'smeftsim', argv, key + '\n')
        refused = defect == 2 and key not in ('i', 'I')
        if defect == 1:
            env.true('invalid input reported in the exit status', code != 0)
            env.true('no card for invalid input', not os.path.exists(dest))
            return
        if defect == 2:
            env.true('warning about the basis', 'Warsaw mass' in out)
        if refused:
            env.true('no card written after refusal', not os.path.exists(dest))
            return
        env.true('exit status', code == 0)
        env.true('card written', os.path.exists(dest))
        if not os.path.exists(dest):
            return
        with open(dest) as f:
            got = card(f.read())
        S = env.module('wcxf.converters.smeftsim')
        filled = S.smeftsim_card_fill(S.initialize_smeftsim_card(model), W.WC('SMEFT', 'Warsaw mass', 1000, vals), model, lam, scheme)
        pre, post = S.smeftsim_card_text(model, scheme)
        want = card(pre)
        for b, block in filled['Block'].items():
            for e in block['values']:
                want[(b.lower(),) + tuple(str(i) for i in e[:-2])] = str(e[-2])
        want.update(card(post))
        env.same_keys('entries', map(str, got), map(str, want))
        for k in want:
            if k in got:
                if not close(got[k], want[k]):
                    env.true('entry %s: %s instead of %s' % (k, got[k], want[k]), False)


def destination(env):
    """a destination that cannot be written to, or an input file that does not exist, is reported in the exit status"""
    with scratch() as d:
        W = env.W
        W.EFT('WET', {'sb': {}})
        W.Basis('WET', 'EOS', {'sb': {'b->s::c1': {'real': True}}})
        W.EFT('SMEFT', {'dB=dL=0': {}})
        W.Basis('SMEFT', 'Warsaw mass', {'dB=dL=0': {'G': {'real': True}}})
        W.Translator('WET', 'EOS', 'B', lambda C, s, p: C)
        W.Matcher('WET', 'EOS', 'F', 'B', lambda C, s, p: C)
        os.makedirs('pre/share/eos/parameters')
        os.mkdir('dir')
        with open('in.json', 'w') as f:
            f.write(dumps(env, {'eft': 'WET', 'basis': 'EOS', 'scale': 4.2, 'values': {'b->s::c1': 1.5}}, 'json'))
        with open('sm.json', 'w') as f:
            f.write(dumps(env, {'eft': 'SMEFT', 'basis': 'Warsaw mass', 'scale': 1e3, 'values': {'G': 1.5}}, 'json'))
        tool, argv = [('wcxf_cli', ['convert', 'yaml', 'in.json']), ('wcxf_cli', ['translate', 'B', 'in.json']),
                      ('wcxf_cli', ['match', 'F', 'B', 'in.json']), ('eos', ['--eosprefix', os.path.join(d, 'pre'), 'in.json']),
                      ('smeftsim', ['sm.json'])][env.choice('tool', 5)]
        k = env.choice('destination', 4)
        dest = ['out.txt', 'nowhere/out.txt', 'dir', 'out.txt'][k]
        if k == 3:
            argv[-1] = 'missing.json'
        code, out = run(env, tool, argv + ['--output', dest])
        env.true('exit status of %s with output %s' % (tool, dest), (code == 0) == (k == 0))
        if k == 0:
            env.true('output written to the file', os.path.getsize(dest) > 0 or tool == 'eos')
            env.true('not to standard output', out.strip() == '')
        env.true('no other files', sorted(set(os.listdir('.')) - {'out.txt'}) == ['dir', 'in.json', 'pre', 'sm.json'] and not os.listdir('dir'))


def nothing(env):
    """no subcommand: help, exit status 0; unknown subcommand or missing argument: usage error"""
    argv, want = [([], 0), (['frobnicate'], 2), (['convert'], 2), (['validate', 'wc', 'missing.yml'], 2), (['match', 'WET'], 2)][
        env.choice('arguments', 5)]
    with scratch():
        code, out = run(env, 'wcxf_cli', argv)
        env.true('exit status of %s' % argv, (code == 0) == (want == 0))
        if not argv:
            env.true('help shown', all(c in out for c in ('convert', 'translate', 'match', 'validate')))


HARNESSES = [Harness(convert, max_paths=400), Harness(conversion, max_paths=4000), Harness(validate, max_paths=900),
             Harness(eos, max_paths=900), Harness(smeftsim, max_paths=400, rel=1e-5), Harness(destination), Harness(nothing)]
ASSUMPTIONS = ['the installed console scripts call sys.exit() on the result of the three entry functions (setup.py)',
               'numbers in documents are finite binary64; the text of a number stands for that number',
               'argparse, the file system and pylha are used as they are']
BOUNDS = ('All combinations of source (argument, "-", standard input), sink, format and defect; document numbers symbolic over all finite '
          'binary64 (SMEFTsim: two concrete documents, the numbers themselves are covered by C24).')
