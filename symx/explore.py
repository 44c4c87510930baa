"""Path exploration by re-execution."""
from . import _Z3PATH  # noqa
import os
import sys
import time
import z3
from . import core, solve, witness
from .slices import Slices
from .core import SymBool


class Prune(BaseException):
    pass


class PathLimit(Exception):
    pass


CUR = None
BUDGET = 60      # seconds of solver time for the decisions of one path; without a verdict both sides are explored


def decide(cond):
    if CUR is None:
        raise core.Unsupported('branch on a symbolic condition outside exploration: %r' % (cond,))
    return CUR.decide(cond)


HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
VP = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'vp.py')


def location():
    f = sys._getframe(2)
    while f is not None and (f.f_code.co_filename.startswith(HERE) or f.f_code.co_filename == VP):
        f = f.f_back
    return (f.f_code.co_filename, f.f_lineno) if f is not None else None


class Path:
    def __init__(self, prefix, sticky=None, wit=None):
        self.prefix = prefix
        self.wit = [wit] if wit is not None else [witness.Witness(i) for i in range(3)]
        self.spent = 0.0
        self.sticky = sticky   # (location, value): preferred value of the decisions made there
        self.locs = {}
        self.alts = {}         # decision -> witness of the other side
        self.choices = []      # (taken, default, forced?)
        self.known = {}
        self.enc = solve.Enc()
        self.solver = z3.Solver()
        self.solver.set('timeout', 5000)
        self.slices = Slices()
        self.nside = 0
        self.pc = []
        self.pcdeps = []       # inputs of the conditions in pc
        self.forced = 0

    def _sync(self):
        while self.nside < len(self.enc.side):
            self._add(self.enc.side[self.nside])
            self.nside += 1

    def _add(self, c):
        self.solver.add(c)
        self.slices.add(c)

    def _check(self, zc):
        """is the condition compatible with the path condition?  Only the part of the (satisfiable) path condition
        connected with it through common variables matters"""
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*self.slices.relevant(zc))
        self.last = s
        return solve.timed_check(s, zc)

    def _from_model(self, cond, v):
        """the first witness moved to the solver's point in the part of the inputs the condition is connected with"""
        m = self.last.model()
        have = {d.name() for d in m.decls()}
        new = {}
        for i, (re, im) in self.enc.vars.items():
            a = core.TABLE.atoms[i]
            if a.defn is None and z3.is_const(re) and re.decl().name() in have:
                new[i] = solve.model_value(m, self.enc, a)
                if a.kind != 'cplx':
                    new[i] = complex(new[i]).real
        w = self.wit[0].put(new)
        return w if witness.compatible(w, cond, v, frozenset(new), self.pc, self.pcdeps) else None

    def decide(self, cond, weak=False):
        k = cond.key()
        if k in self.known:
            return self.known[k]
        zc = self.enc.cond(cond)
        self._sync()
        i = len(self.choices)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.choices.append((v, None))
        else:
            side = {True: None, False: None}
            if not witness.pure_var(cond):
                for w in self.wit:
                    r = w.holds(cond)
                    if r is not None and side[r] is None:
                        side[r] = w
                if self.wit and (side[True] is None) != (side[False] is None):
                    have = side[False] is None
                    side[not have] = witness.flip(side[have], cond, not have, self.pc, self.pcdeps)
            for v in (True, False):
                if side[v] is None and self.spent < BUDGET:
                    t = time.time()
                    r = self._check(zc if v else z3.Not(zc))
                    self.spent += time.time() - t
                    if r == z3.sat and self.wit:
                        side[v] = self._from_model(cond, v)
                    if r == z3.unsat:
                        self.known[k] = not v
                        self.forced += 1
                        self.choices.append((not v, None))
                        return not v
            v = default(cond)
            if cond.op in ('lt', 'le') and self.wit:
                v = self.wit[0].holds(cond) is not False
            loc = location()
            if self.sticky and self.sticky[0] == loc:
                v = self.sticky[1]
            self.locs.setdefault(loc, []).append(i)
            self.choices.append((v, cond))
            self.alts[i] = side[not v]
            if side[v] is not None and not any(w.holds(cond) is v for w in self.wit):
                self.wit.append(side[v])
        self.known[k] = v
        if weak and not v:
            return v     # followed by the individual decisions, which say more
        self._add(zc if v else z3.Not(zc))
        self.pc.append((cond, v, zc))
        self._filter(cond, v)
        return v

    def _filter(self, cond, v):
        self.pcdeps.append(witness.inputs_of(cond))
        if self.wit and not witness.pure_var(cond):
            self.wit = [w for w in self.wit if w.holds(cond) is v]

    def assume(self, cond):
        """add an assumption; prune when infeasible"""
        if not isinstance(cond, SymBool):
            if not cond:
                raise Prune()
            return
        zc = self.enc.cond(cond)
        self._sync()
        self._add(zc)
        self.known[cond.key()] = True
        self.pc.append((cond, True, zc))
        self._filter(cond, True)
        if self._check(zc) == z3.unsat:
            raise Prune()


def default(cond):
    op = cond.op
    if op == 'not':
        return not default(cond.a)
    if op == 'eq':
        return False
    if op == 'and':
        return default(cond.a) and default(cond.b)
    if op == 'or':
        return default(cond.a) or default(cond.b)
    if op == 'z3':
        # prefer the generic side: equalities false
        if z3.is_app(cond.a) and cond.a.decl().kind() in (z3.Z3_OP_FPA_EQ, z3.Z3_OP_AND):
            return False
    return True


def explore(run, max_paths=256, max_seconds=300, log=None):
    """run(path) executes the harness once under `path` (CUR set) and returns a
    result.  Yields (path, result).  Alternatives are explored in order of the
    number of deviations from the default decision."""
    global CUR
    t0 = time.time()
    stats = {'paths': 0, 'pruned': 0, 'complete': True, 'choices': 0}
    done = set()
    buckets = {0: [([], None, None)]}
    while buckets:
        k = min(buckets)
        prefix, sticky, wit = buckets[k].pop(0)
        if not buckets[k]:
            del buckets[k]
        if stats['paths'] >= max_paths or time.time() - t0 > max_seconds:
            stats['complete'] = False
            break
        p = Path(prefix, sticky, wit)
        CUR = p
        try:
            r = run(p)
        except Prune:
            r = None
            stats['pruned'] += 1
        finally:
            CUR = None
        sig = tuple(c[0] for c in p.choices)
        if sticky is not None and sig in done:
            continue
        done.add(sig)
        stats['paths'] += 1
        new = []
        for loc, idx in p.locs.items():
            for n, i in enumerate(idx):
                v = p.choices[i][0]
                alt = [c[0] for c in p.choices[:i]] + [not v]
                new.append((n, i, (alt, None, p.alts[i])))
                stats['choices'] += 1
                if k == 0 and n == 0 and not witness.pure_var(p.choices[i][1]):
                    # the same special case at every visit of a place (a loop that stops at the first generic entry)
                    new.append((n, i + .5, (alt, (loc, not v), p.alts[i])))
        if new:
            # one decision of each place first
            buckets.setdefault(k + 1, []).extend(x[2] for x in sorted(new, key=lambda x: x[:2]))
        if r is not None:
            yield p, r, stats
    explore.last = stats


explore.last = {}
