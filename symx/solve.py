"""Translation to z3 and the queries."""
from . import _Z3PATH  # noqa
import math
import time
from fractions import Fraction
import z3
from . import core
from .core import Sym, SymBool, Poison, TABLE

STATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0, 'obligations': 0,
         'terms': 0, 'cvc5': 0}

TOL = 1e-9


def rat(x):
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def timed_check(s, *a):
    t = time.time()
    r = s.check(*a)
    STATS['time'] += time.time() - t
    STATS['queries'] += 1
    STATS[str(r)] += 1
    return r


class Enc:
    """encoding of atoms as z3 reals, with defining constraints"""

    def __init__(self):
        self.vars = {}
        self.roots = {}
        self.side = []

    def atom(self, a):
        """-> (re, im) z3 terms (im None when real)"""
        if a.kind == 'conj':
            re, im = self.atom(core.TABLE.atoms[a.conj_id])
            return re, -im
        if a.id in self.vars:
            return self.vars[a.id]
        n = 'a%d!%s' % (a.id, a.name[:40])
        if a.kind == 'cplx':
            re, im = z3.Real(n + '.re'), z3.Real(n + '.im')
            if a.lo is not None:
                for v in (re, im):
                    self.side.append(z3.And(v >= rat(a.lo), v <= rat(a.hi)))
            self.vars[a.id] = (re, im)
        else:
            re, im = z3.Real(n), None
            if a.kind == 'pos' and a.lo is None:
                # moduli and singular values can vanish
                zero = a.defn is not None and a.defn[0] == 'uf' and (a.defn[1] == 'abs' or a.defn[1].startswith('msvd'))
                self.side.append(re >= 0 if zero else re > 0)
            if a.lo is not None:
                self.side.append(re >= rat(a.lo))
            if a.hi is not None:
                self.side.append(re <= rat(a.hi))
            self.vars[a.id] = (re, im)
        if a.defn is not None and a.defn[0] == 'poly':
            pr, pi = self.poly(a.defn[1])
            self.side.append(re == pr)
            if im is not None:
                self.side.append(im == pi)
        if a.defn is not None and a.defn[0] == 'uf' and a.defn[1] == 'abs':
            pr, pi = self.poly(a.defn[2][0])
            self.side.append(re * re == pr * pr + pi * pi)
        return self.vars[a.id]

    def root(self, a):
        if a.id not in self.roots:
            re, im = self.atom(a)
            r = z3.Real('sqrt!a%d' % a.id)
            self.side.append(z3.And(r >= 0, r * r == re))
            self.roots[a.id] = r
        return self.roots[a.id]

    def power(self, a, e):
        if e != int(e):
            e2 = e * 2
            if e2 != int(e2):
                raise core.Unsupported('exponent %s' % e)
            b, n = (self.root(a), None), int(e2)
        else:
            b, n = self.atom(a), int(e)
        if n < 0:
            re, im = b
            if im is None:
                inv = z3.Real('inv!%s' % re)
                self.side.append(inv * re == 1)
                b = (inv, None)
            else:
                ir, ii = z3.Real('inv.re!%s' % re), z3.Real('inv.im!%s' % re)
                self.side.append(z3.And(ir * re - ii * im == 1, ir * im + ii * re == 0))
                b = (ir, ii)
            n = -n
        r = b
        for _ in range(n - 1):
            r = cmul(r, b)
        return r

    def poly(self, p):
        if not isinstance(p, Sym):
            c = complex(p)
            return rat(c.real), rat(c.imag)
        res, ims = [], []
        for m, c in p.t.items():
            x = (None, None)
            for aid, e in m:
                y = self.power(core.TABLE.atoms[aid], e)
                x = y if x[0] is None else cmul(x, y)
            re, im = x
            if re is None:
                if c.real:
                    res.append(rat(c.real))
                if c.imag:
                    ims.append(rat(c.imag))
                continue
            if c.real:
                res.append(rat(c.real) * re)
                if im is not None:
                    ims.append(rat(c.real) * im)
            if c.imag:
                ims.append(rat(c.imag) * re)
                if im is not None:
                    res.append(-rat(c.imag) * im)
        z = z3.RealVal(0)
        return (z3.Sum(res) if res else z), (z3.Sum(ims) if ims else z)

    def cond(self, b):
        if not isinstance(b, SymBool):
            return z3.BoolVal(bool(b))
        if b.op == 'z3':
            return b.a
        if b.op == 'var':
            return z3.Bool('b!' + b.a)
        if b.op == 'not':
            return z3.Not(self.cond(b.a))
        if b.op == 'and':
            return z3.And(self.cond(b.a), self.cond(b.b))
        if b.op == 'or':
            return z3.Or(self.cond(b.a), self.cond(b.b))
        re, im = self.poly(b.a)
        if b.op == 'eq':
            return z3.And(re == 0, im == 0)
        if b.op == 'ne':
            return z3.Or(re != 0, im != 0)
        if b.op == 'lt':
            return re < 0
        if b.op == 'le':
            return re <= 0
        raise core.Unsupported(b.op)


def cmul(x, y):
    a, b = x
    c, d = y
    if b is None and d is None:
        return a * c, None
    if b is None:
        return a * c, a * d
    if d is None:
        return a * c, b * c
    return a * c - b * d, a * d + b * c


def bterm(v):
    if isinstance(v, (Sym, Poison)):
        return v
    return core.lift(v)


def diff(l, r):
    """-> (kept, noise, scale): residual terms beyond float noise"""
    l, r = bterm(l), bterm(r)
    if isinstance(l, Poison) or isinstance(r, Poison):
        if isinstance(l, Poison) and isinstance(r, Poison):
            return {}, 0.0, 1.0
        return None, 0.0, 1.0
    kept = {}
    noise = 0.0
    scale = 0.0
    for m in set(l.t) | set(r.t):
        a, b = l.t.get(m, 0j), r.t.get(m, 0j)
        d = a - b
        s = abs(a) + abs(b)
        scale += s
        if abs(d) <= 1e-10 * s:
            noise += abs(d)
        else:
            kept[m] = d
    return kept, noise, scale


def _special(p):
    at = core.TABLE.atoms
    return {a for m in p.t for a, e in m if at[a].defn is not None and (
        at[a].defn[0] == 'poly' or at[a].defn[1] == 'abs') or at[a].kind == 'conj' and at[at[a].conj_id].defn is not None
        and at[at[a].conj_id].defn[0] == 'poly'}


def _defining(aid):
    """polynomial q and power n with atom**n == q"""
    a = core.TABLE.atoms[aid]
    if a.kind == 'conj':
        q, n = _defining(a.conj_id)
        return q.conjugate(), n
    if a.defn[0] == 'poly':
        return a.defn[1], 1
    x = a.defn[2][0]
    return x * x.conjugate(), 2


def normal_pair(l, r, limit=20000):
    """rewrite l == r into an equivalent polynomial equation without quotients by sums, roots of sums and moduli,
    as far as possible: negative powers of such atoms are cleared, higher powers replaced by their definition"""
    l, r = bterm(l), bterm(r)
    for _ in range(8):
        sp = sorted(_special(l) | _special(r), reverse=True)
        step = False
        for aid in sp:
            q, n = _defining(aid)
            exps = [e for p in (l, r) for m in p.t for a, e in m if a == aid]
            if not exps:
                continue
            lo = min(exps + [0])
            if lo < 0:
                f = Sym({((aid, -lo if -lo != int(-lo) else int(-lo)),): 1 + 0j})
                l, r = l * f, r * f
                step = True
            powers = {}

            def sub(p):
                out = core.ZERO
                acc = {}
                for m, c in p.t.items():
                    d = dict(m)
                    e = d.get(aid, 0)
                    k = int(e // n)
                    if k < 1:
                        core._addto(acc, m, c)
                        continue
                    rest = e - k * n
                    if rest:
                        d[aid] = rest if rest != int(rest) else int(rest)
                    else:
                        del d[aid]
                    if k not in powers:
                        powers[k] = q ** k
                    x = powers[k] * Sym({tuple(sorted(d.items())): c})
                    for m2, c2 in x.t.items():
                        core._addto(acc, m2, c2)
                return Sym(acc)
            nl, nr = sub(l), sub(r)
            if powers:
                step = True
            l, r = nl, nr
            if len(l.t) + len(r.t) > limit:
                return None
            if step:
                break
        if not step:
            break
    return l, r


def canon(m):
    c = core._mconj(m)
    return (m, False) if m <= c else (c, True)


def _mle(m):
    return m


def check_relaxed(obls, full=False):
    """obls: list of (label, lhs, rhs).  Every distinct monomial is an
    unconstrained complex number of modulus parts <= 1 (a superset of the values
    it can take, up to scale); z3 decides whether any |lhs-rhs| can exceed
    TOL * (sum of coefficients).  Returns list of labels that z3 says can differ."""
    mv, bound, used = {}, {}, set()

    def mono(m):
        if m == ():
            return z3.RealVal(1), z3.RealVal(0)
        k, conj = _canon(m)
        if k not in mv:
            n = 'm%d' % len(mv)
            re, im = z3.Real(n + 're'), z3.Real(n + 'im')
            bound[k] = [re <= 1, re >= -1, im <= 1, im >= -1]
            if core._mconj(k) == k:
                im = z3.RealVal(0)
            mv[k] = (re, im)
        used.add(k)
        re, im = mv[k]
        return (re, -im) if conj else (re, im)

    def lin(t):
        rr, ii = [], []
        for m, c in t.items():
            re, im = mono(m)
            if c.real:
                rr.append(rat(c.real) * re)
                ii.append(rat(c.real) * im)
            if c.imag:
                rr.append(-rat(c.imag) * im)
                ii.append(rat(c.imag) * re)
        z = z3.RealVal(0)
        return (z3.Sum(rr) if rr else z), (z3.Sum(ii) if ii else z)

    goals = []
    bad = []
    nan = [o for o in obls if diff(o[1], o[2])[0] is None]
    for i, (label, l, r) in enumerate(obls):
        kept, noise, scale = diff(l, r)
        if kept is None:
            continue
        STATS['obligations'] += 1
        STATS['terms'] += len(bterm(l).t) + len(bterm(r).t)
        l0, r0 = l, r
        if kept and (_special(bterm(l)) or _special(bterm(r))):
            lr = normal_pair(l, r)
            if lr is not None:
                kept, noise, scale = diff(*lr)
                l, r = lr
        used.clear()
        defs = []
        if full:
            a, b = lin(bterm(l).t), lin(bterm(r).t)
            re, im = a[0] - b[0], a[1] - b[1]
            e = z3.RealVal(0)
        else:
            re, im = lin(kept)
            e = z3.Real('err%d' % i)
            defs += [e <= rat(noise), e >= -rat(noise)]
        tol = rat(TOL * scale) if scale else z3.RealVal(0)
        g = z3.Bool('g%d' % i)
        defs.append(g == z3.Or(re + e > tol, re + e < -tol, im + e > tol, im + e < -tol))
        # kept terms small enough to be rounding errors: expected to be decided together with the others
        big = sum(abs(c.real) + abs(c.imag) for c in kept.values()) + noise > TOL * scale
        goals.append((label, g, l0, r0, big and not full, defs, set(used)))
    # obligations that agree term by term are decided in one query, the others one by one
    plain = [x for x in goals if not x[4]]

    def solver(xs):
        s = z3.Solver()
        s.set('timeout', 120000)
        for k in set().union(*[x[6] for x in xs]):
            s.add(*bound[k])
        for x in xs:
            s.add(*x[5])
        s.add(z3.Or([x[1] for x in xs]))
        return s
    if plain:
        res = timed_check(solver(plain))
        if res != z3.unsat:
            bad.extend(x[:1] + x[2:4] for x in plain[:100])
    single = [x for x in goals if x[4]]
    stride = max(1, len(single) // 60)      # if many differ: spread over the list first
    for x in single[::stride] + [y for i, y in enumerate(single) if i % stride]:
        if len(bad) >= 60:
            break
        if timed_check(solver([x])) != z3.unsat:
            bad.append(x[:1] + x[2:4])
    return bad + [(a, b, c) for a, b, c in nan]


def _canon(m):
    c = core._mconj(m)
    ks, kc = repr(m), repr(c)
    return (m, False) if ks <= kc else (c, True)


def model_value(model, enc, a):
    re, im = enc.vars[a.id]

    def ev(x):
        v = model.eval(x, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        try:
            return float(v.as_fraction())
        except Exception:
            return float(str(v))
    if im is None:
        return ev(re)
    return complex(ev(re), ev(im))
