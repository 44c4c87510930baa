"""Verdicts of WC.validate and Basis.validate."""
import contextlib
import copy
import os
import shutil
import tempfile
from vp import Harness


def accepted(env, fn):
    try:
        fn()
        return True
    except (AssertionError, ValueError):
        return False


def wc_verdict(env):
    """accepted iff EFT known, basis known for that EFT and every name is a coefficient of that basis"""
    W = env.W
    eft, other_eft = env.flag('eft'), env.flag('other_eft')
    if eft:
        W.EFT('E', {'s1': {}, 's2': {}})
    if other_eft:
        W.EFT('F', {'s1': {}})
    state = env.choice('basis', 4)
    names = set()
    if state == 1:        # only in the other EFT
        W.Basis('F', 'B', {'s1': {'a': {}, 'b': {}, 'c': {}}})
    if state >= 2:
        s1 = [k for k in ('a', 'b') if env.flag('s1' + k)]
        s2 = [k for k in ('c',) if env.flag('s2' + k)]
        W.Basis('E', 'B', {'s1': {k: {} for k in s1}, 's2': {k: None for k in s2}})
        names = set(s1 + s2)
        W.Basis('F', 'B', {'s1': {'z': {}}})
        W.Basis('E', 'A', {'s1': {'z': {}}})
        if state == 3:    # redefined after use
            W.Basis['E', 'B'].all_wcs
            W.Basis('E', 'B', {'s1': {'a': {}}})
            names = {'a'}
    x = env.fp('x')      # any value, also zero
    form = env.choice('form', 3)
    vals = {k: [x, {'Re': 0.0, 'Im': x}, {}][form] for k in ('a', 'c', 'z', 's1') if env.flag('v' + k)}
    wc = W.WC('E', 'B', env.fp('scale'), dict(vals))
    want = eft and state >= 2 and set(vals) <= names
    got = accepted(env, wc.validate)
    env.true('verdict: accepted=%s (EFT known %s, basis state %d, names %s of %s)' % (
        want, eft, state, sorted(vals), sorted(names)), got == want)
    if not eft or state < 2:
        env.raises('unknown EFT/basis is a ValueError', ValueError, wc.validate)
    env.true('values unchanged', wc.values == vals)
    env.true('repeated verdict equal', accepted(env, wc.validate) == got)


LATEX = r"""#!/usr/bin/python3 -SE
# stand-in for latex: options, job name, place of the log, error handling and balance of math shifts as in TeX
import os, sys
LOG = {log!r}
open({scratch!r} + '/runs', 'a').write('run\n')
args = iter(sys.argv[1:])
opt, src, out, job = set(), None, os.getcwd(), None
for a in args:
    if a[:1] != '-':
        src = a
        continue
    n, eq, v = a.lstrip('-').partition('=')
    if n in ('output-directory', 'interaction', 'jobname') and not eq:
        v = next(args, '')
    if n == 'output-directory':
        out = v
    elif n == 'jobname':
        job = v
    elif n == 'interaction':
        opt.add(v)
    elif n in ('halt-on-error', 'file-line-error', 'no-shell-escape', 'draftmode', 'output-format'):
        opt.add(n)
    else:
        sys.exit(1)
if src is None:
    sys.exit(1)
if not os.path.exists(src) and os.path.exists(src + '.tex'):
    src += '.tex'
if job is None:
    job = os.path.basename(src)
    job = job[:-4] if job.endswith('.tex') else job
log = os.path.join(out, job + '.log')
doc = open(src).read()
head, sep, rest = doc.partition(r'\begin{{document}}')
body, end, tail = rest.partition(r'\end{{document}}')
err = not sep or not end or not head.lstrip().startswith(r'\documentclass')
err = err or 'BADTEX' in body
mode, i = '', 0                       # math shifts: $ and $$ are different tokens
while i < len(body):
    c2 = body[i:i + 2]
    if body.startswith((r'\begin{{', r'\end{{'), i):
        name = body[i:].partition('{{')[2].partition('}}')[0].strip('*')
        if name in ('equation', 'align', 'gather', 'math', 'displaymath', 'eqnarray', 'multline'):
            mode = name if c2 == r'\b' else ''
        i += 2
        continue
    if c2 in (r'\(', r'\['):
        mode = c2
    elif c2 in (r'\)', r'\]'):
        mode = ''
    if not mode and (body[i] in '_^' or body.startswith(r'\gamma', i)):
        err = True                    # only allowed in math mode
    if body[i] == '\\':
        i += 2
        continue
    if body[i] == '$':
        two = body[i:i + 2] == '$$'
        if mode == '':
            mode = '$$' if two else '$'
            i += 2 if two else 1
        elif mode == '$':
            mode = ''
            i += 1
        elif two:
            mode = ''
            i += 2
        else:
            err = True
            i += 1
        continue
    i += 1
err = err or mode != ''
if err and not opt & {{'halt-on-error', 'nonstopmode', 'batchmode', 'scrollmode'}}:
    open({scratch!r} + '/prompt', 'w').close()
if err and LOG is not None:
    open(log, 'w').write(LOG)
if not err:
    open(log, 'w').write('This is TeX\n')
    open(os.path.join(out, job + '.dvi'), 'w').write('x')
sys.exit(1 if err else 0)
"""


@contextlib.contextmanager
def fake_latex(state):
    """state 0: no latex; 1: fails with a proper log; 2: fails without log; 3: error at the end of the log;
    4: fails with a log that contains no recognised message"""
    scratch = tempfile.mkdtemp(prefix='vlatex')
    os.mkdir(scratch + '/bin')
    os.mkdir(scratch + '/tmp')
    logs = {0: None, 1: 'This is TeX\n\n(x.aux)\n! Undefined control sequence.\nl.5 BADTEX\n\nrest\n', 2: None, 3: '! Emergency stop.', 4: 'hm\n'}
    if state:
        with open(scratch + '/bin/latex', 'w') as f:
            f.write(LATEX.format(scratch=scratch, log=logs[state]))
        os.chmod(scratch + '/bin/latex', 0o755)
    path, tmp, tmpdir, cwd = os.environ.get('PATH'), tempfile.tempdir, os.environ.get('TMPDIR'), os.getcwd()
    os.environ['PATH'] = scratch + '/bin'
    os.environ['TMPDIR'] = scratch + '/tmp'
    tempfile.tempdir = scratch + '/tmp'
    os.chdir(scratch + '/tmp')
    try:
        yield scratch
    finally:
        os.chdir(cwd)
        os.environ['PATH'] = path
        if tmpdir is None:
            os.environ.pop('TMPDIR', None)
        else:
            os.environ['TMPDIR'] = tmpdir
        tempfile.tempdir = tmp
        shutil.rmtree(scratch)


def basis_verdict(env):
    """accepted iff EFT known, sectors belong to it and no coefficient appears twice"""
    W = env.W
    eft = env.flag('eft')
    if eft:
        W.EFT('E', {k: {} for k in ('s1', 's2') if env.flag('e' + k)})
    else:
        W.EFT('F', {'s1': {}, 's2': {}, 's3': {}})
    esect = set(W.EFT['E'].sectors) if eft else set()
    sect = {}
    for s in ('s1', 's2', 's3'):
        if env.flag('b' + s):
            sect[s] = {k: {} for k in ('a', 'b') if env.flag(s + k)}
    parent = env.flag('child')
    if parent:
        W.Basis('E', 'P', {'s1': {'a': {}, 'p': {}}})
        b = W.Basis('E', 'B', sect, parent='P')
    else:
        b = W.Basis('E', 'B', sect)
    eff = dict({'s1': {'a': {}, 'p': {}}}, **sect) if parent else sect
    allk = [k for s in eff.values() for k in s]
    want = eft and set(eff) <= esect and len(allk) == len(set(allk))
    before = copy.deepcopy(b.sectors)
    with fake_latex(0):
        got = accepted(env, b.validate)
    env.true('verdict: accepted=%s (EFT sectors %s, basis %s)' % (want, sorted(esect), {k: sorted(v) for k, v in eff.items()}),
             got == want)
    env.true('basis unchanged', b.sectors == before)


def basis_tex(env):
    """with latex: rejected (ValueError) iff the LaTeX of some coefficient does not compile; nothing left behind"""
    W = env.W
    W.EFT('E', {'s1': {}, 's2': {}})
    state = env.choice('latex', 5)
    bad = [env.flag('bad%d' % i) for i in range(3)]
    t = lambda i: {'tex': r'\gamma BADTEX' if bad[i] else r'\gamma x_%d' % i}
    if env.flag('empty'):
        bad, b = [], W.Basis('E', 'B', {'s1': {'n': None}, 's2': {}})
    elif env.flag('some without LaTeX'):
        b = W.Basis('E', 'B', {'s1': {'a': t(0), 'n': None, 'e': {}, 'b': t(1)}, 's2': {'m': {'real': True}, 'c': t(2)}})
    else:
        b = W.Basis('E', 'B', {'s1': {'a': t(0), 'n': None, 'b': t(1)}, 's2': {'c': t(2)}})
    with fake_latex(state) as scratch:
        try:
            b.validate()
            got, message = True, ''
        except ValueError as e:
            got, message = False, str(e)
        env.true('no files left behind', os.listdir(scratch + '/tmp') == [])
        env.true('latex was run if installed', os.path.exists(scratch + '/runs') == (state > 0) or not bad)
        env.true('latex does not wait for input at an error', not os.path.exists(scratch + '/prompt'))
    want = state == 0 or not any(bad)
    if not want and state == 1:
        env.true('the whole error message is quoted', 'l.5 BADTEX' in message and 'rest' not in message)
    if not want and state in (1, 3):
        env.true('the error message quotes the LaTeX error', ('Undefined control sequence' if state == 1 else 'Emergency stop') in message)
    env.true('verdict: accepted=%s (latex state %d, broken %s)' % (want, state, bad), got == want)


HARNESSES = [Harness(wc_verdict, max_paths=6000), Harness(basis_verdict, max_paths=2000),
             Harness(basis_tex, max_paths=300)]
ASSUMPTIONS = ['latex is replaced by a stand-in executable in a scratch directory that fails iff the document contains a marker',
               'the interpreter runs with assertions enabled']
BOUNDS = ('All registrations of one or two EFTs, a basis with up to 3 coefficients in two or three sectors (also inherited), '
          'files with any subset of 4 names and any value in three notations (also zero and empty); latex absent, succeeding, or failing with 4 kinds of log.')
