"""Registration of the EFT and basis files shipped with the package."""
import contextlib
import json
import os
import random
import shutil
import sys
import tempfile
from vp import Harness, REPO
from symx import loader

EFTS = {'one.eft.json': {'eft': 'E', 'sectors': {'s': {'dB': 1}, 't': {}}},
        'F.eft.json': {'eft': 'F', 'sectors': {'s': {}}, 'metadata': {'x': 1}}}
BASES = {'E.A.basis.json': {'eft': 'E', 'basis': 'A', 'sectors': {'s': {'x': {'tex': 'a', 'real': True}}, 't': {'y': None}}},
         'z.basis.json': {'eft': 'E', 'basis': 'B', 'sectors': {'t': {'x': {}}}},
         'F.A.basis.json': {'eft': 'F', 'basis': 'A', 'sectors': {'s': {'f': {}}}, 'metadata': {'d': 'q'}}}
CHILDREN = {'child/0.basis.json': {'eft': 'E', 'basis': 'C', 'parent': 'A', 'sectors': {'t': {'z': {}}}},
            'child/E.A.basis.json': {'eft': 'E', 'basis': 'D', 'parent': 'B', 'sectors': {}},
            'child/F.C.basis.json': {'eft': 'F', 'basis': 'C', 'parent': 'A', 'sectors': {'u': {'g': {}}}}}
OTHER = {'README.md': 'x', 'E.eft.yml': 'eft: Q\nsectors: {}\n', 'basis.json.bak': '{', 'child/notes.txt': 'x',
         'other/E.O.basis.json': '{"eft": "E", "basis": "O", "sectors": {}}'}


@contextlib.contextmanager
def package(env, files, order):
    """the package with these files in its bases folder, folders listed in the given order"""
    d = tempfile.mkdtemp()
    try:
        root = os.path.join(d, 'wcxf')
        os.mkdir(root)
        for n in os.listdir(os.path.join(REPO, 'wcxf')):
            if n != 'bases' and n != '__pycache__':
                os.symlink(os.path.join(REPO, 'wcxf', n), os.path.join(root, n))
        for n in ['bases'] + list(files):
            p = os.path.join(root, 'bases', n) if n != 'bases' else os.path.join(root, n, 'keep')
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(files.get(n, ''))
        with listing(root, order):
            if env.sym:
                yield load_sym(env, d)
            else:
                with load_real(env, d) as W:
                    yield W
    finally:
        shutil.rmtree(d)


@contextlib.contextmanager
def listing(root, order):
    """directory listings inside root come in the given order"""
    scandir, listdir = os.scandir, os.listdir

    class It:
        def __init__(self, es):
            self.it = iter(es)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def inside(p):
        return isinstance(p, (str, os.PathLike)) and os.fspath(p).startswith(root)

    def p_scandir(p='.'):
        if not inside(p):
            return scandir(p)
        with scandir(p) as it:
            return It(order(list(it), lambda e: e.name))

    def p_listdir(p='.'):
        r = listdir(p)
        return order(r, lambda e: e) if inside(p) else r
    os.scandir, os.listdir = p_scandir, p_listdir
    try:
        yield
    finally:
        os.scandir, os.listdir = scandir, listdir


def load_sym(env, d):
    env.pkg = loader.SymPackage(repo=d)
    return env.pkg.load('wcxf')


@contextlib.contextmanager
def load_real(env, d):
    import importlib
    old = list(sys.path)
    sys.path.insert(0, d)
    purge = lambda: [sys.modules.pop(k) for k in list(sys.modules) if k == 'wcxf' or k.startswith('wcxf.')]
    purge()
    importlib.invalidate_caches()
    try:
        yield importlib.import_module('wcxf')
    finally:
        sys.path[:] = old
        purge()


def arrange(env, perms):
    """an order of the entries of every folder, by symbolic choice"""
    k = env.choice('order', perms)

    def order(xs, key):
        xs = sorted(xs, key=key)
        if k < 4:
            xs = xs[::-1] if k & 1 else xs
            return xs[1:] + xs[:1] if k & 2 and xs else xs
        random.Random(k).shuffle(xs)
        return xs
    return order


def expect(env, W, names, tag):
    efts = [EFTS[n] for n in names if n in EFTS]
    bs = [{**BASES, **CHILDREN}[n] for n in names if n in BASES or n in CHILDREN]
    inst = lambda c: getattr(c, 'instances', {})
    env.true(tag + 'the EFTs are those of the files', set(inst(W.EFT)) == {e['eft'] for e in efts})
    env.true(tag + 'the bases are those of the files', set(inst(W.Basis)) == {(b['eft'], b['basis']) for b in bs})
    for e in efts:
        o = W.EFT[e['eft']]
        env.true('%s%s: content' % (tag, e['eft']), o.eft == e['eft'] and o.sectors == e['sectors'])
        for k in set(e) - {'eft', 'sectors'}:
            env.true('%s%s: %s' % (tag, e['eft'], k), getattr(o, k) == e[k])
        env.true('%s%s: its bases' % (tag, e['eft']), sorted(o.known_bases) == sorted(b['basis'] for b in bs if b['eft'] == e['eft']))
    by = {(b['eft'], b['basis']): b for b in bs}
    for n, b in by.items():
        o = W.Basis[n]
        want = dict(by[b['eft'], b['parent']]['sectors']) if 'parent' in b else {}
        want.update(b['sectors'])
        env.true('%s%s: content' % (tag, n), (o.eft, o.basis) == n and {k: dict(v) for k, v in o.sectors.items()} == want)
        env.true('%s%s: parent' % (tag, n), getattr(o, 'parent', None) == b.get('parent'))
        env.true('%s%s: coefficients' % (tag, n), sorted(o.all_wcs) == sorted(k for s in want.values() for k in s))
        for k in set(b) - {'eft', 'basis', 'sectors', 'parent'}:
            env.true('%s%s: %s' % (tag, n, k), getattr(o, k) == b[k])


def subsets(env):
    """any subset of the files (children only with their parents), folders listed forwards or backwards"""
    names = [n for n in list(EFTS) + list(BASES) if env.flag(n)]
    for n, c in CHILDREN.items():
        if any(BASES.get(p, {}).get('eft') == c['eft'] and BASES[p]['basis'] == c['parent'] for p in names if p in BASES):
            if env.flag(n):
                names.append(n)
    files = {n: json.dumps({**EFTS, **BASES, **CHILDREN}[n]) for n in names}
    if env.flag('other files'):
        files.update(OTHER)
    with package(env, files, arrange(env, 2)) as W:
        expect(env, W, names, '')


def orders(env):
    """all files and other files beside them, folders listed in different orders"""
    names = list(EFTS) + list(BASES) + list(CHILDREN)
    files = {n: json.dumps({**EFTS, **BASES, **CHILDREN}[n]) for n in names}
    files.update(OTHER)
    with package(env, files, arrange(env, 24)) as W:
        expect(env, W, names, '')


def converters(env):
    """the registered conversions do not depend on the shipped files"""
    names = [n for n in list(EFTS) + list(BASES)] if env.flag('files') else []
    files = {n: json.dumps({**EFTS, **BASES}[n]) for n in names}
    with package(env, files, arrange(env, 1)) as W:
        got = [sorted(getattr(c, 'instances', {})) for c in (W.Translator, W.Matcher)]
    with package(env, {}, arrange(env, 1)) as W:
        want = [sorted(getattr(c, 'instances', {})) for c in (W.Translator, W.Matcher)]
    env.true('same translators and matchers', got == want and all(got))


HARNESSES = [Harness(orders), Harness(subsets, max_paths=800), Harness(converters)]
ASSUMPTIONS = ['the file system returns folder entries in some order and the contents as written',
               'a child basis is shipped together with its parent, which is not itself a child']
BOUNDS = ('2 EFT files, 3 basis files, 3 child files, each present or not (symbolic), 5 other files, 24 listing orders of '
          'the folders; file contents are fixed documents')
