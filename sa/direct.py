"""Scenarios about one function or object of the library, without a schema around it."""
from .engine import C, Interp, S, State, World, is_raise
from .ops import NODE, context_variables
from .repo import AnalysisBroken


class DEnd:
    def __init__(self, sc, st, v):
        self.sc, self.st = sc, st
        self.exc = v[1] if is_raise(v) else None
        self.val = None if is_raise(v) else v
        self.ev = [e for e in st.ev if e[0] == 'u']
        self.kind = 'ok' if self.exc is None else exc_name(sc.it, st, self.exc)

    def path(self):
        return self.st.path()

    def events(self, *what):
        return [e for e in self.ev if e[1] in what]

    def read(self, v, name):
        r = self.sc.it.get_attr(self.st.copy(), v, name, NODE)
        return r[0][1] if len(r) == 1 and not is_raise(r[0][1]) else None


def exc_name(it, st, v):
    o = st.heap.get(v[1]) if v[0] == 'r' else None
    if o is None:
        return 'exc ' + str(v[:2])
    if o.cls == ('other',):
        return 'Other'
    return it.cls_name(o.cls, st) if o.cls[0] in ('cls', 'H') else str(o.cls)


class Direct:
    """One call analysed over everything its symbols stand for."""
    op = 'direct'
    world = World

    @classmethod
    def weight(cls, kw):
        return 1

    def __init__(self, repo, **p):
        self.repo, self.p = repo, p
        self.ends = []

    def build(self):
        self.w = self.world(self.repo) if self.world is not World else World()
        self.w.sc = self
        self.it = Interp(self.repo, self.w)
        st = State()
        tags = {'current_schema': 'schema', 'current_field_key': 'key'}
        for nm, ref in context_variables(self.repo, self.it, st):
            st.cv[ref] = S(('outer', nm), tags.get(nm, 'any'))
        self.finish(self.run(st) or ())
        if not self.ends:
            raise AnalysisBroken(f'{self.op}: no path ends')
        self.views = [self]
        return self

    def finish(self, res):
        self.ends += [DEnd(self, s, v) for s, v in res]

    def cls_of(self, mod, name):
        return ('cls', self.repo.require_class(mod, name))

    def then(self, res, f):
        """Continue every path that has not raised."""
        out = []
        for s, v in res:
            if is_raise(v):
                out.append((s, v))
            else:
                s.pins = s.pins + (v,)
                out.extend(f(s, v))
        return out


def zone(facts, more=()):
    """Closure of the difference constraints of a path; None when they contradict each other."""
    cons = {}

    def le(x, y, k):                     # x - y <= k
        if k is not None and (cons.get((x, y)) is None or k < cons[(x, y)]):
            cons[(x, y)] = k

    def both(x, y, lo, hi):
        le(x, y, hi)
        le(y, x, None if lo is None else -lo)
    for k, b in facts.items():
        if k[0] == 'd':
            both(k[1], k[2], *b)
        elif k[0] == 'truthy' and b is False and is_num(k[1]):
            both(k[1], None, 0, 0)
        elif k[0] == 'ne0' and b is False:
            both(k[1], None, 0, 0)
    for c in more:
        le(*c)
    names = {None} | {n for c in cons for n in c}
    for n in names:
        if n is not None and n[0] == 'len':
            le(None, n, 0)
    for m in names:
        for a in names:
            for b in names:
                x, y = cons.get((a, m)), cons.get((m, b))
                if x is not None and y is not None and (cons.get((a, b)) is None or x + y < cons[(a, b)]):
                    cons[(a, b)] = x + y
    if any(cons.get((n, n), 0) < 0 for n in names):
        return None
    return cons


def is_num(v):
    return v[0] == 'len' or v[0] == 's' and v[2] == 'int'


def feasible(facts, *more):
    return zone(facts, more) is not None
