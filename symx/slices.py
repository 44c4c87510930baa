"""Independent parts of a set of constraints."""
import z3

_names = {}


def symbols(e):
    """names of the variables and uninterpreted functions in a z3 expression"""
    k = e.get_id()
    if k in _names and _names[k][0].eq(e):
        return _names[k][1]
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            todo.extend(x.children())
        elif z3.is_quantifier(x):
            todo.append(x.body())
    if len(_names) > 20000:
        _names.clear()
    _names[k] = (e, frozenset(out))
    return _names[k][1]


class Slices:
    """constraints grouped by shared symbols"""

    def __init__(self):
        self.parent = {}
        self.group = {}
        self.ground = []

    def find(self, x):
        p = self.parent
        p.setdefault(x, x)
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x

    def add(self, e):
        s = symbols(e)
        if not s:
            self.ground.append(e)
            return
        roots = {self.find(x) for x in s}
        r = roots.pop()
        g = self.group.setdefault(r, [])
        for o in roots:
            h = self.group.pop(o, [])
            self.parent[o] = r
            if len(h) > len(g):
                g, h = h, g
            g.extend(h)
        self.group[r] = g
        g.append(e)

    def relevant(self, e):
        """constraints connected with e"""
        out = list(self.ground)
        for r in {self.find(x) for x in symbols(e)}:
            out += self.group.get(r, [])
        return out

    def parts(self):
        return ([self.ground] if self.ground else []) + list(self.group.values())
