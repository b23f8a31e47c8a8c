"""Path-sensitive interprocedural dataflow analysis over the syntax tree.

States are finite: values are constants, source-level access paths ("symbols"),
objects named by allocation site with a most-recent/older split, and atomic
facts about them. Loops over collections run to a fixpoint: a designated
("focus") element is visited exactly once, all other elements are folded into
one summary. Calls into the analysed package are followed; calls into user code
are left to the rule's World, which enumerates their outcomes.
"""
import ast
import builtins
import collections
import collections.abc
import contextvars
import copy as _copy
import inspect as _inspect
import operator as _operator
import typing

from .repo import AnalysisBroken, host_import

MAX_STEPS = 6_000_000


class Unsupported(Exception):
    pass


class HW:
    """Hashable wrapper of a host (standard library) object."""
    __slots__ = ('obj', '_h')

    def __init__(self, obj):
        self.obj = obj
        try:
            self._h = hash(obj) if not isinstance(obj, type) else id(obj)
        except TypeError:
            self._h = id(obj)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if not isinstance(o, HW):
            return False
        if self.obj is o.obj:
            return True
        if isinstance(self.obj, type) or isinstance(o.obj, type):
            return False
        try:
            return type(self.obj) is type(o.obj) and bool(self.obj == o.obj)
        except Exception:
            return False

    def __repr__(self):
        n = getattr(self.obj, '__qualname__', None) or getattr(self.obj, '__name__', None)
        return str(n) if isinstance(n, str) else repr(self.obj)


def C(v):
    return ('c', type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def H(o):
    return ('H', HW(o))


def S(name, tag='any'):
    return ('s', name if isinstance(name, tuple) else (name,), tag)


def old(tag='any'):
    return ('o', tag)


def is_raise(v):
    return v[0] == '!'


class OtherExc(Exception):
    """Stands for an exception of any class outside the caught families."""


_EMPTY = frozenset()
_SKELS = {}
_EVREFS = {}
_FREFS = {}


def collect_refs(v, out):
    """Heap references inside a (nested) value."""
    for x in v:
        if isinstance(x, tuple):
            if x and x[0] == 'r' and len(x) == 2:
                out.append(x[1])
            else:
                collect_refs(x, out)
    if len(v) == 2 and v[0] == 'r':
        out.append(v[1])


_NOREF = frozenset(('c', 'o', 'H', 'cls', 'fn', 'mod', 'gcm0'))
_VREFS = {}


def vrefs(v):
    """Heap references inside one value, remembered."""
    t = v[0]
    if t == 'r' and len(v) == 2:
        return (v[1],)
    if t in _NOREF and not (t == 'o' and len(v) > 2):
        return ()
    r = _VREFS.get(v)
    if r is None:
        r = _VREFS[v] = refs_of(v)
    return r


def refs_of(values):
    out = []
    collect_refs(values, out)
    return tuple(set(out))


def _fact_refs(k):
    r = _FREFS.get(k)
    if r is None:
        r = _FREFS[k] = refs_of(k)
    return r


class Obj:
    __slots__ = ('kind', 'cls', 'attrs', 'strong', 'weak', 'others', 'ne', 'removed', 'opt', 'flags',
                 '_refs', '_skel')

    def __init__(self, kind, cls=None, attrs=None, strong=(), weak=_EMPTY, others=None, ne=None,
                 removed=_EMPTY, opt=(), flags=_EMPTY):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.strong = strong
        self.weak = weak
        self.others = others
        self.ne = ne
        self.removed = removed
        self.opt = opt
        self.flags = flags
        self._refs = None
        self._skel = None

    def copy(self, **kw):
        o = Obj(self.kind, self.cls, self.attrs, self.strong, self.weak, self.others, self.ne,
                self.removed, self.opt, self.flags)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def key(self):
        return (self.kind, self.cls, frozenset(self.attrs.items()) if self.attrs else None, self.strong,
                self.weak, self.others, self.ne, self.removed, self.opt, self.flags)

    def refs(self):
        r = self._refs
        if r is None:
            r = self._refs = refs_of(tuple(self.values()))
        return r

    def skel(self):
        r = self._skel
        if r is None:
            k = self._skel_key()
            r = self._skel = _SKELS.setdefault(k, len(_SKELS))
        return r

    def _skel_key(self):
        return (self.kind, self.cls, frozenset(self.attrs.items()) if self.attrs else None, self.strong,
                self.others, self.removed, self.opt, self.flags)

    def content(self):
        """What a collection holds, ignoring what is merely known about emptiness."""
        return (self.strong, self.weak, self.others, self.removed, self.opt, self.flags)

    def values(self):
        if self.cls is not None:
            yield self.cls
        yield from self.attrs.values()
        if self.kind == 'dict':
            for k, v in self.strong:
                yield k
                yield v
            for k, v in self.weak:
                yield k
                yield v
            for k, v in self.opt:
                yield k
                yield v
        else:
            yield from self.strong
            yield from self.weak
        if self.others:
            yield from (x for x in self.others if isinstance(x, tuple))

    def exact(self):
        return not self.weak and not self.others and not self.opt


class State:
    __slots__ = ('env', 'heap', 'facts', 'cv', 'ev', 'wev', 'pins', 'trace', 'flags')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.cv = {}
        self.ev = ()             # events of focus iterations, in order
        self.wev = _EMPTY        # events of summarised iterations
        self.pins = ()
        self.flags = _EMPTY
        self.trace = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.cv = dict(self.cv)
        s.ev = self.ev
        s.wev = self.wev
        s.pins = self.pins
        s.flags = self.flags
        s.trace = self.trace
        return s

    def note(self, text):
        self.trace = (self.trace, text)

    def path(self, limit=40):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        if len(out) > limit:
            out = ['...'] + out[-limit:]
        return out

    def gc(self, extra=()):
        stack = []
        for v in self.env.values():
            stack.extend(vrefs(v))
        for v in self.cv.values():
            stack.extend(vrefs(v))
        for e in self.ev:
            r = _EVREFS.get(e)
            if r is None:
                r = []
                collect_refs(e, r)
                _EVREFS[e] = r
            stack.extend(r)
        for v in self.pins:
            stack.extend(vrefs(v))
        if extra:
            collect_refs(extra, stack)
        for h in HOLD:
            stack.extend(h)
        live = set()
        heap = self.heap
        while stack:
            u = stack.pop()
            if u in live:
                continue
            live.add(u)
            o = heap.get(u)
            if o is not None:
                stack.extend(o.refs())
        if len(live) != len(heap):
            self.heap = {k: o for k, o in heap.items() if k in live}
        if self.facts:
            dead = [k for k in self.facts if not all(u in live for u in _fact_refs(k))]
            for k in dead:
                del self.facts[k]

    def key(self, extra=()):
        self.gc(extra)
        return (frozenset(self.env.items()), frozenset((k, o.key()) for k, o in self.heap.items()),
                frozenset(self.facts.items()), frozenset(self.cv.items()), self.ev, self.wev, self.flags)

    def skel(self, extra=()):
        """The part of a state that a join must agree on: all but the summaries."""
        self.gc(extra)
        return (frozenset((k, '~o' if v[0] == 'o' else v) for k, v in self.env.items()),
                frozenset((k, o.skel()) for k, o in self.heap.items()),
                frozenset(self.facts.items()), frozenset(self.cv.items()), self.ev, self.flags)

    def join(self, other):
        """Least upper bound with a state of the same skeleton; None if self covers it."""
        heap = None
        for u, o in other.heap.items():
            a = self.heap[u]
            if a is o or (a.weak == o.weak and a.ne == o.ne):
                continue
            w = a.weak | o.weak
            ne = a.ne if a.ne == o.ne else None
            if ne == a.ne and w == a.weak:
                continue
            if heap is None:
                heap = dict(self.heap)
            heap[u] = a.copy(weak=w, ne=ne)
        env = None
        for k, v in other.env.items():
            if v[0] == 'o' and self.env[k] != v and self.env[k] not in (('o', 'any'), ('o', v[1])):
                if env is None:
                    env = dict(self.env)
                env[k] = ('o', v[1]) if v[1] == self.env[k][1] else ('o', 'any')
        wev = self.wev | other.wev
        if heap is None and env is None and wev == self.wev:
            return None
        s = self.copy()
        s.wev = wev
        if heap is not None:
            s.heap = heap
        if env is not None:
            s.env = env
        return s


# Objects the interpreter holds in values not yet bound to any variable: those
# that existed when a call being executed began, and the items of a running loop.
HOLD = []


class held:
    """Keep what the given values refer to alive while something is evaluated."""
    __slots__ = ()

    def __init__(self, *values):
        r = []
        for v in values:
            if isinstance(v, Obj):
                r.extend(v.refs())
            elif isinstance(v, dict):
                for x in v.values():
                    r.extend(vrefs(x))
            elif v:
                if isinstance(v[0], str):
                    r.extend(vrefs(v))
                else:
                    for x in v:
                        r.extend(vrefs(x))
        HOLD.append(r)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        HOLD.pop()


class Space:
    """What iterating over a value visits."""
    __slots__ = ('items', 'weak', 'gen', 'exact', 'may_raise', 'ne', 'ordered', 'src', 'wrap')

    def __init__(self, items=(), weak=(), gen=None, exact=False, may_raise=False, ne=None, ordered=True, src=None, wrap=None):
        self.src = src                # the collection iterated over
        self.wrap = wrap              # what is visited for an element of it
        self.ordered = ordered
        self.items = list(items)
        self.weak = list(weak)
        self.gen = gen
        self.exact = exact
        self.may_raise = may_raise
        self.ne = ne


HOST_BUILTIN_EXC = (KeyError, AttributeError, TypeError, ValueError, IndexError, LookupError, RuntimeError,
                    StopIteration, AssertionError, NotImplementedError)


class World:
    """Default environment of an analysed entry point. Rules override parts."""
    opaque_classes = ()       # package classes whose summarised instances keep no contents
    implies = {}              # collections whose elements all belong to another one
    clobbered = frozenset()
    focus = frozenset()
    sorts = frozenset({'key', 'name', 'field', 'validator'})
    named = ('load_key', 'dump_key', 'name', 'key')     # properties of a field symbol left as symbols

    def attr(self, it, st, v, name, node):
        return None

    def setattr(self, it, st, v, name, val, node):
        return None

    def call(self, it, st, fv, args, kwargs, node):
        return None

    def glob(self, it, st, mod, name):
        return None

    def mutate(self, it, st, target, what, node):
        pass

    def memo(self, it, st, v, node):
        """An argument of a memoised function: the result may be that of an equal one."""
        if v[0] == 's' and v[2] == 'any':
            self.mutate(it, st, H('cache'), ('remembering', v), node)
            return S(('equal to', v), 'any')
        return v

    def conv_raises(self, it, st, fn, v):
        return False

    def may_not_hash(self, v):
        return False

    def opaque_call(self, it, st, fv, args, kwargs, node):
        """A call whose callee is unknown user code."""
        return it.user_outcomes(st, node, 'user code', 'any')

    def attr_tag(self, base, name):
        return {'_name': 'name', 'name': 'name', '_load_key': 'key', 'load_key': 'key', '_key': 'key',
                'key': 'key', '_dump_key': 'dkey', 'dump_key': 'dkey'}.get(name, 'any')

    def decide_truth(self, it, st, v):
        return None

    def decide_isinstance(self, it, st, v, cls):
        return None

    def returned(self, it, st, fi, val):
        pass


class Interp:
    def __init__(self, repo, world):
        self.records = {}
        self.repo = repo
        self.world = world
        self.ctx = ()
        self.ctx_ids = {}
        self.ctx_tab = []
        self.nk_ids = {}
        self.live_tab = {}
        self.uid_ids = {}
        self.uids = []           # interned object names: (context, site, k)
        self.missing_uids = set()
        self.steps = 0
        self.stack = []          # FuncInfo stack
        self.fids = []           # frame ids
        self.yields = {}         # fid -> callback
        self.fn_seen = collections.Counter()
        self.stmts_seen = set()
        self.branches = set()
        self.user_calls = collections.Counter()
        self.writes = set()
        self.unknown = collections.Counter()
        self.memo = set()           # memoised functions
        self.models = build_models()

    # ------------------------------------------------------------------ misc
    def ctxid(self):
        i = self.ctx_ids.get(self.ctx)
        if i is None:
            i = len(self.ctx_tab)
            self.ctx_ids[self.ctx] = i
            self.ctx_tab.append(self.ctx)
        return i

    def tick(self, n=1):
        self.steps += n
        if self.steps > MAX_STEPS:
            raise AnalysisBroken('state space too large')

    def loc(self, node):
        mod = self.stack[-1].mod if self.stack else None
        rel = mod.rel if mod else '?'
        fn = self.stack[-1].qual.split(':', 1)[-1] if self.stack else '?'
        return f'{rel}:{getattr(node, "lineno", "?")} ({fn})'

    def nkey(self, node):
        mod = self.stack[-1].mod.name if self.stack else ''
        return (mod, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), type(node).__name__)

    def nk(self, node):
        k = self.nkey(node)
        i = self.nk_ids.get(k)
        if i is None:
            i = self.nk_ids[k] = len(self.nk_ids)
        return i

    def at(self):
        return ('@', self.ctxid())

    def uid(self, k):
        i = self.uid_ids.get(k)
        if i is None:
            i = self.uid_ids[k] = len(self.uids)
            self.uids.append(k)
        return i

    def alloc(self, st, obj, node, k=0):
        uid = self.uid((self.ctxid(), self.nk(node), k))
        if uid in st.heap:
            # same site, same context: the earlier object becomes a summary
            self.age(st, lambda u: u == uid)
        st.heap[uid] = obj
        return ('r', uid)

    def fresh(self, node, what, tag='any'):
        return ('s', (what, self.at(), self.nk(node)), tag)

    # ---------------------------------------------------------------- aging
    def age_ctx(self, st, prefix):
        n = len(prefix)
        tab = self.ctx_tab

        uids = self.uids
        cm, um = {}, {}

        def cpred(c):
            r = cm.get(c)
            if r is None:
                t = tab[c]
                r = cm[c] = len(t) >= n and t[:n] == prefix
            return r

        def pred(u):
            r = um.get(u)
            if r is None:
                c = uids[u][0]
                r = um[u] = c >= 0 and cpred(c)
            return r
        self.age(st, pred, cpred)

    def age(self, st, pred, cpred=lambda c: False):
        memo = {}

        def term_aged(t):
            for x in t:
                if isinstance(x, tuple) and x:
                    if x[0] == '@':
                        if cpred(x[1]):
                            return True
                    elif x[0] == 'o':
                        return True
                    elif x[0] == 'r':
                        if len(x) == 2 and pred(x[1]):
                            return True
                    elif term_aged(x):
                        return True
            return False

        def mv(v):
            r = memo.get(v)
            if r is not None:
                return r
            t = v[0]
            if t == 's':
                if not term_aged(v[1]):
                    r = v
                elif v[1][0] == 'el' and v[2] in ('name', 'key') and not term_aged(v[1][2]):
                    r = ('o', v[2], v[1][2])
                else:
                    r = ('o', v[2])
            elif t == 'r':
                if pred(v[1]):
                    o = st.heap.get(v[1])
                    r = memo[v] = ('o', self.kind_tag(o))
                    if o is not None and o.kind == 'inst' and self.is_record(o):
                        r = ('o', r[1], ('rec', tuple(sorted((n, self.shallow(mv(x))) for n, x in o.attrs.items()))))
                else:
                    r = v
            elif t == 'o' and len(v) > 2:
                if v[2][0] == 'rec':
                    r = ('o', v[1], ('rec', tuple((n, mv(x)) for n, x in v[2][1])))
                else:
                    r = ('o', v[1]) if term_aged(v[2]) else v
            elif t in ('c', 'H', 'o', 'cls', 'mod'):
                r = v
            else:
                r = tuple(mv(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                          tuple(mv(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x)
                          if isinstance(x, tuple) else x for x in v)
            memo[v] = r
            return r

        for k in list(st.env):
            v = st.env[k]
            nv = mv(v)
            if nv is not v:
                st.env[k] = nv
        for k in list(st.cv):
            st.cv[k] = mv(st.cv[k])
        if st.facts:
            bad = [k for k in st.facts if term_aged(k)]
            for k in bad:
                del st.facts[k]
        for u in list(st.heap):
            if pred(u):
                continue
            o = st.heap[u]
            ch = False
            attrs = o.attrs
            for a, v in list(attrs.items()):
                nv = mv(v)
                if nv is not v:
                    if attrs is o.attrs:
                        attrs = dict(attrs)
                    attrs[a] = nv
                    ch = True
            strong, weak, ne, opt = o.strong, o.weak, o.ne, o.opt
            if o.kind == 'dict':
                ns, nw = [], set()
                for k, v in strong:
                    nk, nv = mv(k), mv(v)
                    if has_old(nk):
                        nw.add((nk, nv))
                        ne = True
                    else:
                        ns.append((nk, nv))
                for k, v in weak:
                    nw.add((mv(k), mv(v)))
                opt = tuple((mv(k), mv(v)) for k, v in opt)
                removed = frozenset(x for x in (mv(k) for k in o.removed) if not has_old(x))
                if tuple(ns) != strong or frozenset(nw) != weak or removed != o.removed or opt != o.opt:
                    ch = True
                strong, weak = tuple(ns), frozenset(nw)
                no = o.copy(attrs=attrs, strong=strong, weak=weak, ne=ne, removed=removed, opt=opt) if ch else o
            else:
                ns, nw = [], set()
                for v in strong:
                    nv = mv(v)
                    if has_old(nv) and o.kind in ('list', 'set'):
                        nw.add(nv)
                        ne = True
                    else:
                        ns.append(nv)
                for v in weak:
                    nw.add(mv(v))
                if tuple(ns) != strong or frozenset(nw) != weak:
                    ch = True
                cls = mv(o.cls) if isinstance(o.cls, tuple) else o.cls
                no = o.copy(attrs=attrs, cls=cls, strong=tuple(ns), weak=frozenset(nw), ne=ne) if ch or cls != o.cls else o
            if no is not o:
                st.heap[u] = no
        for u in list(st.heap):
            if pred(u):
                del st.heap[u]
        if st.ev:
            new = []
            weak = None
            for e in st.ev:
                n = tuple(mv(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e)
                if n != e:
                    weak = (weak or set())
                    weak.add(n)
                else:
                    new.append(n)
            if weak:
                st.ev = tuple(new)
                st.wev = st.wev | weak
        if st.wev:
            st.wev = frozenset(tuple(mv(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e)
                               for e in st.wev)

    def summarised(self):
        """Is the current code running for a summarised element of a loop?"""
        return any(len(c) > 2 and c[2] == 'o' for c in self.ctx)

    def event(self, st, e):
        if self.summarised():
            st.wev = st.wev | {e}
        elif st.ev.count(e) < 2:
            st.ev = st.ev + (e,)

    def shallow(self, v):
        if v[0] == 'o':
            return v[:2] if len(v) > 2 and depth(v) > 8 else v
        return v if depth(v) <= 8 else ('o', 'any')

    def is_record(self, o):
        """Summaries of these keep what their attributes hold."""
        if o.cls[0] != 'cls' or len(o.attrs) > 8:
            return False
        r = self.records.get(o.cls)
        if r is None:
            r = self.records[o.cls] = not any(self.issub(o.cls, x) for x in (H(BaseException), *self.world.opaque_classes))
        return r

    def kind_tag(self, o):
        if o is None:
            return 'any'
        if o.kind == 'inst':
            return ('inst', o.cls)
        if o.kind in ('list', 'dict', 'set'):
            return o.kind
        if o.kind == 'token':
            return 'token'
        return 'any'

    # ------------------------------------------------------------- class info
    def mro(self, cv, st=None):
        """List of class values, most specific first."""
        if cv[0] == 'H':
            o = cv[1].obj
            if isinstance(o, type):
                return [H(c) for c in o.__mro__]
            return [cv]
        if cv[0] == 'r':
            o = st.heap[cv[1]]
            m = o.attrs.get('!mro')
            if m is not None:
                return [cv] + [x for x in m[1]]
            out = [cv]
            lists = [self.mro(b, st) for b in o.strong]
            return out + self._merge_mro(lists)
        if cv[0] != 'cls':
            return [cv]
        q = cv[1]
        m = self.repo._mro.get(q)
        if m is not None:
            return m
        ci = self.repo.classes[q]
        lists = []
        for b in ci.node.bases:
            bv = self.static_class(b, ci.mod)
            if bv is not None:
                lists.append(self.mro(bv))
        if not lists:
            lists = [[H(object)]]
        m = [cv] + self._merge_mro(lists)
        self.repo._mro[q] = m
        return m

    @staticmethod
    def _merge_mro(lists):
        out = []
        lists = [list(x) for x in lists if x]
        # C3 linearisation
        while lists:
            for seq in lists:
                h = seq[0]
                if not any(h in s[1:] for s in lists):
                    break
            else:
                h = lists[0][0]
            out.append(h)
            lists = [[x for x in s if x != h] for s in lists]
            lists = [s for s in lists if s]
        return out

    def static_class(self, expr, mod):
        """Resolve a base class expression without evaluating it."""
        if isinstance(expr, ast.Subscript):
            return self.static_class(expr.value, mod)
        if isinstance(expr, ast.Name):
            v = self.static_global(mod.name, expr.id)
            if v is None:
                b = getattr(builtins, expr.id, None)
                return H(b) if b is not None else None
            return v
        if isinstance(expr, ast.Attribute):
            b = self.static_class(expr.value, mod)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.static_global(b[1], expr.attr)
            if b[0] == 'H':
                o = getattr(b[1].obj, expr.attr, None)
                return H(o) if o is not None else None
        return None

    def static_global(self, modname, name, depth=0):
        e = self.repo.find_global(modname, name)
        if e is None or depth > 10:
            return None
        if e[0] == 'class':
            return ('cls', e[1].qual)
        if e[0] == 'func':
            return ('fn', e[1].qual, None)
        if e[0] == 'import':
            src, nm = e[1], e[2]
            if nm is None:
                if src in self.repo.modules:
                    return ('mod', src)
                m = host_import(src)
                return H(m) if m is not None else None
            if src in self.repo.modules:
                return self.static_global(src, nm, depth + 1)
            if src.split('.')[0] == self.repo.package:
                return None
            m = host_import(src)
            o = getattr(m, nm, None) if m is not None else None
            if o is None and m is not None:
                sub = host_import(f'{src}.{nm}')
                return H(sub) if sub is not None else None
            return H(o) if o is not None else None
        return None

    def cls_name(self, cv, st=None):
        if cv[0] == 'cls':
            return self.repo.classes[cv[1]].name
        if cv[0] == 'H':
            return repr(cv[1])
        return str(cv)

    def issub(self, a, b, st=None):
        """Is class value a a subclass of class value b (True/False/None unknown)."""
        if a == b:
            return True
        if a[0] == 'H' and b[0] == 'H':
            try:
                return issubclass(a[1].obj, b[1].obj)
            except TypeError:
                return None
        if a[0] in ('cls', 'r'):
            m = self.mro(a, st)
            if b in m:
                return True
            if any(x[0] == 's' for x in m):
                return None
            if b[0] == 'H':
                for x in m:
                    if x[0] == 'H' and self.issub(x, b):
                        return True
                return False
            return False
        if a[0] == 'H':
            return False
        return None

    def class_lookup(self, cv, name, st=None, after=None):
        """(owner class value, entry) of an attribute along the MRO."""
        m = self.mro(cv, st)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            if c[0] == 'cls':
                ci = self.repo.classes[c[1]]
                e = ci.attrs.get(name)
                if e is not None:
                    return c, e
            elif c[0] == 'r' and st is not None:
                o = st.heap.get(c[1])
                if o is not None and name in o.attrs:
                    return c, ('value', o.attrs[name])
            elif c[0] == 'H':
                d = vars(c[1].obj) if isinstance(c[1].obj, type) else {}
                if name in d:
                    return c, ('host', d[name])
        return None, None

    # ------------------------------------------------------------ exceptions
    def exc(self, st, cls, node, msg=None):
        o = Obj('inst', H(cls) if isinstance(cls, type) else cls,
                {'args': ('t', (C(msg),) if msg is not None else ())})
        return self.alloc(st, o, node, ('x', getattr(cls, '__name__', str(cls))))

    def raise_(self, st, cls, node, msg=None):
        e = self.exc(st, cls, node, msg)
        return (st, ('!', e))

    def exc_matches(self, st, e, cv):
        """Does exception value e match class value cv -> list of (st, bool)."""
        return self.isinstance_(st, e, cv)

    def user_outcomes(self, st, node, what, tag='any', raises=('ValueError', 'AssertionError', 'FieldError', 'Other'),
                      ret=None):
        """Outcomes of calling user code: returns, or raises one of the families."""
        self.user_calls[(what, self.nkey(node))] += 1
        out = []
        s = st.copy()
        s.note(f'{self.loc(node)}: {what} returns')
        rv = ret if ret is not None else self.fresh(node, 'ret', tag)
        out.append((s, rv))
        for r in raises:
            s = st.copy()
            s.note(f'{self.loc(node)}: {what} raises {r}')
            out.extend(self.user_raise(s, r, node))
        return out

    def user_raise(self, s, r, node, who=None):
        if r == 'FieldError':
            msg = ('s', ('fe-msg', who), 'any') if who else self.fresh(node, 'usermsg', 'any')
            res = []
            fe = self.repo.require_class(f'{self.repo.package}.exceptions', 'FieldError')
            for s2, v in self.call(s, ('cls', fe), (msg,), {}, node):
                if is_raise(v):
                    res.append((s2, v))
                else:
                    self.tag_exc(s2, v, 'user')
                    res.append((s2, ('!', v)))
            return res
        if r == 'Other':
            o = Obj('inst', ('other',), {'args': old('any')}, flags=frozenset({'user'}))
        else:
            o = Obj('inst', H(getattr(builtins, r)), {'args': ('t', (('s', ('msg', who), 'any') if who else self.fresh(node, 'usermsg'),))},
                    flags=frozenset({'user'}))
        e = self.alloc(s, o, node, ('ux', r))
        return [(s, ('!', e))]

    def tag_exc(self, st, v, flag):
        if v[0] == 'r':
            o = st.heap[v[1]]
            st.heap[v[1]] = o.copy(flags=o.flags | {flag})

    # ---------------------------------------------------------------- facts
    def fork(self, st, key, note=None):
        """Two states deciding an atomic fact; old symbols fork without memory."""
        k = st.facts.get(key)
        if k is not None:
            return [(st, k)]
        a, b = st, st.copy()
        if not mentions_old(key):
            a.facts[key] = True
            b.facts[key] = False
        return [(a, True), (b, False)]

    def truth(self, st, v):
        t = v[0]
        if t == '!':
            return [(st, v)]
        if t == 'c':
            return [(st, bool(v[2]))]
        if t in ('H', 'cls', 'fn', 'bm', 'hm', 'mod', 'gcm'):
            if t == 'H':
                try:
                    return [(st, bool(v[1].obj))]
                except Exception:
                    return [(st, True)]
            return [(st, True)]
        if t == 't':
            return [(st, bool(v[1]))]
        if t == 'view':
            return self.truth(st, v[2])
        if t == 'len':
            return self.truth(st, v[1])
        if t == 'r':
            o = st.heap.get(v[1])
            if o is None:
                return self.fork(st, ('truthy', v))
            if o.kind in ('list', 'set', 'dict'):
                return self.coll_truth(st, v, o)
            if o.kind == 'inst':
                d = self.world.decide_truth(self, st, v)
                if d is not None:
                    return [(st, d)]
                for nm in ('__bool__', '__len__'):
                    c, e = self.class_lookup(o.cls, nm, st) if o.cls[0] != 'other' else (None, None)
                    if e is not None and e[0] == 'func':
                        out = []
                        for s, r in self.call(st, ('bm', ('fn', e[1].qual, None), v), (), {}, e[1].node):
                            out.extend([(s, r)] if is_raise(r) else self.truth(s, r))
                        return out
            return [(st, True)]
        if t == 's':
            d = self.world.decide_truth(self, st, v)
            if d is not None:
                return [(st, d)]
            tag = v[2]
            if tag in ('field', 'validator', 'callable', 'class', 'exc', 'token'):
                return [(st, True)]
            if isinstance(tag, tuple):
                return [(st, True)]
            if st.facts.get(('isnone', v)) is True:
                return [(st, False)]
            if v[1][0] == 'not':
                return [(s, not b) for s, b in self.truth(st, v[1][1])]
            if v[1][0] == 'fmt' and any(p[0] == 'c' and p[2] for p in v[1][1]):
                return [(st, True)]
            if v[1][0] == 'lin':
                return self.order(st, '!=', v, C(0))
            if v[2] == 'int':
                return self.order(st, '!=', v, C(0))
            out = self.fork(st, ('truthy', v))
            for s, b in out:
                if b and not mentions_old(v):
                    s.facts[('isnone', v)] = False
            return out
        if t == 'o':
            tag = v[1]
            if tag in ('field', 'validator', 'callable', 'class', 'exc', 'token') or isinstance(tag, tuple):
                return [(st, True)]
            return [(st.copy(), True), (st, False)]
        return [(st.copy(), True), (st, False)]

    def coll_truth(self, st, ref, o):
        if o.ne is True:
            return [(st, True)]
        if o.strong:
            return [(st, True)]
        # optional entries
        for k, v in o.opt:
            f = st.facts.get(('in', k, o.others[0] if o.others else ref))
            if f is True:
                return [(st, True)]
        if not o.weak and not o.others and not o.opt:
            return [(st, False)]
        if o.flags and 'nonempty' in o.flags:
            return [(st, True)]
        a, b = st, st.copy()
        a.heap[ref[1]] = o.copy(ne=True)
        b.heap[ref[1]] = o.copy(weak=_EMPTY, others=None, opt=(), ne=False)
        return [(a, True), (b, False)]

    def is_none(self, st, v):
        if v[0] == 'c':
            return [(st, v[2] is None)]
        if v[0] == 's':
            f = st.facts.get(('isnone', v))
            if f is not None:
                return [(st, f)]
            tag = v[2]
            if tag not in ('any', 'optany') or v[1][0] in ('fmt', 'str'):
                return [(st, False)]
            if st.facts.get(('truthy', v)) is True:
                return [(st, False)]
            if ('class', v) in st.facts:
                return [(st, st.facts[('class', v)].obj is type(None))]
            for k, b in st.facts.items():
                if k[0] == 'isinst' and k[1] == v and b is True:
                    return [(st, False)]
            out = self.fork(st, ('isnone', v))
            for s, b in out:
                if b:
                    s.facts[('truthy', v)] = False
            return out
        if v[0] == 'o':
            if v[1] not in ('any', 'optany'):
                return [(st, False)]
            return [(st.copy(), True), (st, False)]
        return [(st, False)]

    def distinct_by_sort(self, a, b):
        """Distinct elements of one family: the focus element against any other."""
        ta = a[2] if a[0] == 's' else a[1] if a[0] == 'o' else None
        tb = b[2] if b[0] == 's' else b[1] if b[0] == 'o' else None
        if ta == 'name' and b[0] == 'c' or tb == 'name' and a[0] == 'c':
            c = b if a[0] in 'so' else a       # no field is called __fields__
            return isinstance(c[2], str) and c[2].startswith('__') and c[2].endswith('__')
        if ta is None or ta != tb or ta not in self.world.sorts:
            return False
        return (a in self.world.focus) != (b in self.world.focus) or \
            (a in self.world.focus and b in self.world.focus and a != b)

    def is_(self, st, a, b):
        """Identity -> list of (st, bool)."""
        if a == b:
            if has_old(a):
                return [(st.copy(), True), (st, False)]
            return [(st, True)]
        if a == NONE:
            return self.is_none(st, b)
        if b == NONE:
            return self.is_none(st, a)
        if self.is_missing(a) or self.is_missing(b):
            m, o = (a, b) if self.is_missing(a) else (b, a)
            if o[0] == 's' and o[2] in ('optany',):
                return self.fork(st, ('missing', o))
            if o[0] == 'o' and o[1] in ('optany',):
                return [(st.copy(), True), (st, False)]
            return [(st, False)]
        if a[0] == 'c' and b[0] == 'c':
            return [(st, a[1] == b[1] and a[2] == b[2])]
        for x, y in ((a, b), (b, a)):
            if x in (TRUE, FALSE) and y[0] == 's' and y[2] == 'bool':
                return [(s, (t == x[2]) if not isinstance(t, tuple) else t) for s, t in self.truth(st, y)]
            if x in (TRUE, FALSE) and y[0] == 'o' and y[1] == 'bool':
                return [(st.copy(), True), (st, False)]
        if a[0] == 'H' and b[0] == 'H':
            return [(st, a[1] == b[1])]
        for x, y in ((a, b), (b, a)):
            if x[-1] == 'leafclass' and x[0] in 'so' and y[0] in 'Hc':
                return [(st, False)]           # some class unknown to the library
        if self.distinct_by_sort(a, b):
            return [(st, False)]
        if 'o' in (a[0], b[0]):
            if self.kind_incompatible(st, a, b):
                return [(st, False)]
            return [(st.copy(), True), (st, False)]
        if a[0] == 's' or b[0] == 's':
            x, y = (a, b) if a[0] == 's' else (b, a)
            if y[0] in ('r', 't', 'bm', 'fn'):
                return [(st, False)]
            if self.kind_incompatible(st, a, b):
                return [(st, False)]
            # class objects given by scenario: type(v)
            if y[0] in ('H', 'cls', 'c') and x[1][0] not in ('type',):
                return self.fork(st, ('is', x, y))
            return self.fork(st, ('is',) + tuple(sorted((x, y), key=repr)))
        return [(st, False)]

    def kind_incompatible(self, st, a, b):
        ta, tb = self.vtag(st, a), self.vtag(st, b)
        if ta in ('any', 'optany') or tb in ('any', 'optany'):
            return False
        if ta == tb:
            return False
        return True

    def vtag(self, st, v):
        if v[0] == 's':
            return v[2]
        if v[0] == 'o':
            return v[1]
        if v[0] == 'c':
            return {'str': 'str', 'bool': 'bool', 'int': 'int'}.get(v[1], v[1])
        if v[0] == 'r':
            o = st.heap.get(v[1])
            return self.kind_tag(o)
        return 'any'

    def is_missing(self, v):
        return v[0] == 'r' and v[1] in self.missing_uids

    def eq(self, st, a, b):
        if a[0] == 'c' and b[0] == 'c':
            try:
                return [(st, bool(a[2] == b[2]))]
            except Exception:
                return [(st, False)]
        if a == b and not has_old(a):
            return [(st, True)]
        if self.distinct_by_sort(a, b):
            return [(st, False)]
        if a[0] == 'len' or b[0] == 'len' or self.is_int(a) and self.is_int(b):
            return self.order(st, '==', a, b)
        if a[0] == 't' and b[0] == 't':
            if len(a[1]) != len(b[1]):
                return [(st, False)]
            sts = [(st, True)]
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s, r in sts:
                    nxt.extend(self.eq(s, x, y) if r is True else [(s, r)])
                sts = nxt
            return sts
        # list == [] and the like
        for x, y in ((a, b), (b, a)):
            if x[0] == 'r' and y[0] in ('r', 't'):
                ox = st.heap.get(x[1])
                oy = st.heap.get(y[1]) if y[0] == 'r' else None
                if ox is not None and ox.kind in ('list', 'dict', 'set') and oy is not None and oy.kind == ox.kind \
                        and oy.exact() and not oy.strong:
                    return [(s, not t) for s, t in self.truth(st, x)]
        if a[0] == 'r' and b[0] == 'r':
            oa, ob = st.heap.get(a[1]), st.heap.get(b[1])
            if oa is not None and ob is not None and oa.kind == ob.kind and oa.kind in ('list', 'set', 'dict'):
                if oa.exact() and ob.exact() and len(oa.strong) == len(ob.strong) and oa.kind == 'list':
                    return self.eq(st, ('t', oa.strong), ('t', ob.strong))
                if oa.content() == ob.content():
                    return [(st, True)]
                return self.fork(st, ('eq',) + tuple(sorted((a, b), key=repr)))
            return [(st, False)]
        if 'c' in (a[0], b[0]):
            x, y = (a, b) if a[0] == 'c' else (b, a)
            if x == NONE:
                return self.is_none(st, y)
            if x in (TRUE, FALSE) and y[0] in 'so' and self.vtag(st, y) == 'bool':
                return self.is_(st, x, y)
            if y[0] == 's':
                if self.kind_incompatible(st, a, b) and not {self.vtag(st, a), self.vtag(st, b)} <= {'key', 'name', 'dkey', 'str'}:
                    return [(st, False)]
                return self.fork(st, ('eq', y, x))
            if y[0] == 'o':
                return [(st.copy(), True), (st, False)]
            return [(st, False)]
        if a[0] in 'so' and b[0] in 'so':
            if a[0] == 'o' or b[0] == 'o':
                if self.kind_incompatible(st, a, b) and not {self.vtag(st, a), self.vtag(st, b)} <= {'key', 'name', 'dkey', 'str'}:
                    return [(st, False)]
                return [(st.copy(), True), (st, False)]
            return self.fork(st, ('eq',) + tuple(sorted((a, b), key=repr)))
        return self.is_(st, a, b)

    def is_int(self, v):
        return (v[0] == 'c' and isinstance(v[2], int) and not isinstance(v[2], bool)) or \
               (v[0] == 's' and v[2] == 'int') or v[0] == 'len'

    @staticmethod
    def lin(v):
        """value -> (base symbol or None, offset)."""
        if v[0] == 'c':
            return None, v[2]
        if v[0] == 's' and v[1][0] == 'lin':
            return v[1][1], v[1][2]
        return v, 0

    def mklin(self, base, off):
        if base is None:
            return C(off)
        if off == 0:
            return base
        return ('s', ('lin', base, off), 'int')

    def order(self, st, op, a, b):
        """Comparison of integers -> list of (st, bool)."""
        if a[0] == 'c' and b[0] == 'c':
            try:
                return [(st, bool(OPS[op](a[2], b[2])))]
            except Exception:
                return [self.raise_(st, TypeError, ast.Pass())]
        if 'H' in (a[0], b[0]):
            try:
                return [(st, bool(OPS[op](self.to_host(st, a), self.to_host(st, b))))]
            except Exception:
                pass
        for x, y, o in ((a, b, op), (b, a, FLIP[op])):
            if x[0] == 'len' and y[0] == 'c':
                return self.len_cmp(st, x[1], o, y[2])
        for x in (a, b):
            if x[0] == 'len' and x[1][0] != 's':
                return self.fork(st, ('cmp', op, a, b))
        if a[0] == 's' and a[1][0] == 'binop' and a[1][1] == 'Sub' and b[0] == 'c' and self.is_int(a):
            return self.order(st, op, a[1][2], self.mklin(*(lambda p: (p[0], p[1] + b[2]))(self.lin(a[1][3]))))
        if not (self.is_int(a) and self.is_int(b)):
            if has_old(a) or has_old(b):
                return [(st.copy(), True), (st, False)]
            if op in ('>', '>=', '!='):
                inv = {'>': '<=', '>=': '<', '!=': '=='}[op]
                return [(s, (not r)) for s, r in self.fork(st, ('cmp', inv, a, b))]
            return self.fork(st, ('cmp', op, a, b))
        x, cx = self.lin(a)
        y, cy = self.lin(b)
        k = cy - cx                      # x - y  op  k
        if x == y:
            return [(st, bool(OPS[op](0, k)))]
        flip = False
        if repr(x) > repr(y):
            x, y, k, op = y, x, -k, FLIP[op]
        key = ('d', x, y)
        lo, hi = st.facts.get(key, (None, None))

        def parts():
            if op == '<':
                yield True, (None, k - 1)
                yield False, (k, None)
            elif op == '<=':
                yield True, (None, k)
                yield False, (k + 1, None)
            elif op == '>':
                yield True, (k + 1, None)
                yield False, (None, k)
            elif op == '>=':
                yield True, (k, None)
                yield False, (None, k - 1)
            else:
                r = op == '=='
                yield r, (k, k)
                yield (not r), (None, k - 1)
                yield (not r), (k + 1, None)
        out = []
        for r, (l2, h2) in parts():
            nl = l2 if lo is None else lo if l2 is None else max(lo, l2)
            nh = h2 if hi is None else hi if h2 is None else min(hi, h2)
            if nl is not None and nh is not None and nl > nh:
                continue
            s = st.copy()
            s.facts[key] = (nl, nh)
            out.append((s, r))
        return out

    def len_cmp(self, st, v, op, n):
        if v[0] == 't':
            return [(st, bool(OPS[op](len(v[1]), n)))]
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind in ('list', 'dict', 'set'):
                if o.exact():
                    return [(st, bool(OPS[op](len(o.strong), n)))]
                if (op, n) in ((('>', 0)), ('>=', 1), ('!=', 0)):
                    return self.truth(st, v)
                if (op, n) in ((('==', 0)), ('<=', 0), ('<', 1)):
                    return [(s, not t) for s, t in self.truth(st, v)]
                lo = len(o.strong)
                if op in ('>=',) and lo >= n or op == '>' and lo > n:
                    return [(st, True)]
                if op == '<' and lo >= n or op == '<=' and lo > n or op == '==' and lo > n:
                    return [(st, False)]
        if v[0] in ('s',):
            if (op, n) in (('>=', 0), ('>', -1), ('!=', -1)):
                return [(st, True)]
            if (op, n) in (('<', 0), ('<=', -1), ('==', -1)):
                return [(st, False)]
            return self.fork(st, ('lencmp', v, op, n))
        return [(st.copy(), True), (st, False)]

    # -------------------------------------------------------------- isinstance
    def isinstance_(self, st, v, cv):
        """-> list of (st, bool | raise)."""
        if cv[0] == 't':
            sts = [(st, False)]
            for c in cv[1]:
                nxt = []
                for s, r in sts:
                    nxt.extend(self.isinstance_(s, v, c) if r is False else [(s, r)])
                sts = nxt
            return sts
        if cv[0] == 'H':
            o = cv[1].obj
            if isinstance(o, tuple):
                return self.isinstance_(st, v, ('t', tuple(H(x) for x in o)))
            if o is None:
                return [self.raise_(st, TypeError, ast.Pass())]
            try:
                isinstance(object(), o)
            except TypeError:
                return [self.raise_(st, TypeError, ast.Pass())]
            except Exception:
                pass
            if o is object:
                return [(st, True)]
        if cv[0] == 'c':
            return [self.raise_(st, TypeError, ast.Pass())]
        if cv[0] == 'r':
            oc = st.heap.get(cv[1])
            if oc is None or oc.kind != 'class':
                if oc is not None and oc.kind == 'list':
                    return [self.raise_(st, TypeError, ast.Pass())]
                if oc is not None and oc.kind == 'inst' and oc.cls[0] != 'H':
                    return [self.raise_(st, TypeError, ast.Pass())]
        d = self.world.decide_isinstance(self, st, v, cv)
        if d is not None:
            return [(st, d)]
        t = v[0]
        if t == 'c':
            return [(st, isinstance(v[2], cv[1].obj) if cv[0] == 'H' else False)]
        if t == 't':
            return [(st, issubclass(tuple, cv[1].obj) if cv[0] == 'H' else False)]
        if t in ('fn', 'bm', 'hm'):
            if cv[0] == 'H':
                try:
                    return [(st, isinstance(_probe_fn, cv[1].obj))]
                except TypeError:
                    return [(st, False)]
            return [(st, False)]
        if t == 'H':
            try:
                return [(st, isinstance(v[1].obj, cv[1].obj) if cv[0] == 'H' else False)]
            except TypeError:
                return [self.raise_(st, TypeError, ast.Pass())]
        if t == 'cls':
            if cv[0] == 'H':
                return [(st, issubclass(type, cv[1].obj))]
            meta = self.metaclass(v)
            r = self.issub(meta, cv) if meta is not None else False
            return [(st, bool(r))]
        if t == 'view':
            k = {'items': collections.abc.ItemsView, 'keys': collections.abc.KeysView,
                 'values': collections.abc.ValuesView}[v[1]]
            return [(st, issubclass(k, cv[1].obj) if cv[0] == 'H' else False)]
        if t == 'len':
            return [(st, issubclass(int, cv[1].obj) if cv[0] == 'H' else False)]
        if t == 'r':
            o = st.heap.get(v[1])
            if o is not None:
                if o.kind in ('list', 'set', 'dict'):
                    if o.cls is not None:        # user collection of a known protocol
                        r = self.issub(o.cls, cv, st)
                        if r:
                            return [(st, True)]
                        if cv[0] == 'H' and o.cls[0] == 'H' and self.issub(cv, o.cls):
                            return self.fork(st, ('isinst', v, cv))
                        return [(st, False)]
                    return [(st, issubclass({'list': list, 'set': set, 'dict': dict}[o.kind], cv[1].obj)
                             if cv[0] == 'H' else False)]
                if o.kind == 'class':
                    if cv[0] == 'H':
                        return [(st, issubclass(type, cv[1].obj))]
                    meta = self.metaclass(v, st)
                    return [(st, bool(self.issub(meta, cv)) if meta is not None else False)]
                if o.kind == 'inst':
                    if o.cls[0] == 'other':
                        return self.other_isinstance(st, v, cv)
                    if o.cls[0] in ('s', 'o'):
                        return self.sym_class_isinstance(st, v, o.cls, cv)
                    r = self.issub(o.cls, cv, st)
                    if r is None or not r and 'user' in o.flags and self.issub(cv, o.cls, st):
                        # an exception of user code may belong to any subclass of its family
                        return self.fork(st, ('isinst', v, cv))
                    return [(st, r)]
                return [(st, False)]
        if t in ('s', 'o'):
            tag = v[2] if t == 's' else v[1]
            r = self.tag_isinstance(tag, cv, st)
            if r is not None:
                return [(st, r)]
            if t == 's':
                cf = st.facts.get(('class', v))
                if cf is not None:
                    r = self.issub(H(cf.obj), cv, st)
                    if r is not None:
                        return [(st, r)]
                if st.facts.get(('isnone', v)) is True:
                    return [(st, cv[0] == 'H' and issubclass(type(None), cv[1].obj))]
                for k, b in list(st.facts.items()):
                    if k[0] == 'isinst' and k[1] == v:
                        if b is True and self.issub(k[2], cv, st):
                            return [(st, True)]
                        if b is False and self.issub(cv, k[2], st):
                            return [(st, False)]
                out = self.fork(st, ('isinst', v, cv))
                for s, b in out:
                    if b:
                        s.facts[('isnone', v)] = cv == H(type(None))
                return out
            return [(st.copy(), True), (st, False)]
        return [(st.copy(), True), (st, False)]

    def metaclass(self, cv, st=None):
        for c in self.mro(cv, st):
            if c[0] == 'cls':
                ci = self.repo.classes[c[1]]
                if ci.meta is not None:
                    return self.static_class(ci.meta, ci.mod)
        return None

    def tag_isinstance(self, tag, cv, st):
        host = {'str': str, 'bool': bool, 'int': int, 'name': str, 'list': list, 'dict': dict, 'set': set,
                'tuple': tuple, 'float': float}.get(tag) if isinstance(tag, str) else None
        if host is not None:
            return self.issub(H(host), cv, st)
        if isinstance(tag, tuple) and tag[0] == 'inst':
            if tag[1][0] == 'other':
                return None
            return self.issub(tag[1], cv, st)
        if tag == 'field':
            f = self.field_class()
            r = self.issub(f, cv, st)
            if r:
                return True
            if cv[0] == 'cls' and self.issub(cv, f, st):
                return None
            return False if cv[0] == 'cls' else None if cv[0] != 'H' else False
        return None

    def field_class(self):
        return ('cls', self.repo.require_class(f'{self.repo.package}.fields.base', 'Field'))

    def sym_class_isinstance(self, st, v, scls, cv):
        if scls == cv:
            return [(st, True)]
        return self.fork(st, ('isinst', v, cv))

    def other_isinstance(self, st, v, cv):
        """v is a user exception outside ValueError/AssertionError/FieldError."""
        if cv == H(BaseException):
            return [(st, True)]
        if cv[0] == 'H' and isinstance(cv[1].obj, type):
            if issubclass(cv[1].obj, (ValueError, AssertionError)):
                return [(st, False)]
            if not issubclass(cv[1].obj, BaseException):
                return [(st, False)]
        if cv[0] == 'cls':
            fe = ('cls', self.repo.require_class(f'{self.repo.package}.exceptions', 'FieldError'))
            if self.issub(cv, fe):
                return [(st, False)]
            if not self.issub(cv, H(BaseException)):
                return [(st, False)]
        for k, b in list(st.facts.items()):
            if k[0] == 'isinst' and k[1] == v:
                if b is True and self.issub(k[2], cv, st):
                    return [(st, True)]
                if b is False and self.issub(cv, k[2], st):
                    return [(st, False)]
        return self.fork(st, ('isinst', v, cv))

    # ---------------------------------------------------------------- in
    def hashing(self, st, v):
        """Values a rule says may be unhashable raise TypeError where they are hashed."""
        if v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind in ('list', 'set', 'dict'):
            return [self.raise_(st, TypeError, ast.Pass())]
        if v[0] == 'H':
            try:
                hash(v[1].obj)
            except TypeError:
                return [self.raise_(st, TypeError, ast.Pass())]
            return [(st, True)]
        if not self.world.may_not_hash(v):
            return [(st, True)]
        return [(s, True) if b else self.raise_(s, TypeError, ast.Pass()) for s, b in self.fork(st, ('hashable', v))]

    def in_(self, st, k, coll):
        if (k[0] in 'Hr' or self.world.may_not_hash(k)) and coll[0] == 'r' and coll[1] in st.heap and \
                st.heap[coll[1]].kind in ('set', 'dict'):
            out = []
            for s, b in self.hashing(st, k):
                out.extend(self.contains(s, k, coll) if b is True else [(s, b)])
            return out
        return self.contains(st, k, coll)

    def contains(self, st, k, coll):
        t = coll[0]
        if t == 'view':
            if coll[1] == 'keys':
                return self.in_(st, k, coll[2])
            o = st.heap.get(coll[2][1]) if coll[2][0] == 'r' else None
            if o is not None and o.exact():
                items = [v if coll[1] == 'values' else ('t', (kk, v)) for kk, v in o.strong]
                return self.in_seq(st, k, items)
            return [(st.copy(), True), (st, False)]
        if t == 't':
            return self.in_seq(st, k, coll[1])
        if t == 'c':
            if k[0] == 'c':
                try:
                    return [(st, k[2] in coll[2])]
                except TypeError:
                    return [self.raise_(st, TypeError, ast.Pass())]
            return self.fork(st, ('in', k, coll))
        if t == 'r':
            o = st.heap.get(coll[1])
            if o is not None and o.kind == 'range':
                a, b = o.strong
                step = o.attrs.get('step', C(1))
                if step != C(1):
                    return self.fork(st, ('in', k, ('s', ('range', a, b, step), 'range')))
                out = []
                for s, r in self.order(st, '>=', k, a):
                    if r is True:
                        out.extend(self.order(s, '<', k, b))
                    else:
                        out.append((s, r))
                return out
            if o is not None and o.kind == 'dict':
                return [(s, r[0]) for r, s in self.joined([((r if is_raise_res(r) else r[0] == 'hit',), s)
                                                        for s, r in self.dict_get(st, coll, k)])]
            if o is not None and o.kind in ('list', 'set'):
                return self.in_coll(st, k, coll, o)
            if o is not None and o.kind == 'inst':
                c, e = self.class_lookup(o.cls, '__contains__', st)
                if e is not None and e[0] == 'func':
                    out = []
                    for s, r in self.call(st, ('bm', ('fn', e[1].qual, None), coll), (k,), {}, e[1].node):
                        out.extend([(s, r)] if is_raise(r) else self.truth(s, r))
                    return out
            return self.fork(st, ('in', k, coll))
        if t == 'H':
            if k[0] == 'H' or k[0] == 'c':
                try:
                    return [(st, (k[1].obj if k[0] == 'H' else k[2]) in coll[1].obj)]
                except Exception:
                    pass
            return self.fork(st, ('in', k, coll))
        if t == 's':
            base = self.coll_base(coll)
            return self.fork(st, ('in', k, base))
        return [(st.copy(), True), (st, False)]

    def member(self, st, e, base):
        """e is one of the elements of base; so also of what base was selected from."""
        st.facts[('in', e, base)] = True
        b = self.world.implies.get(base)
        if b is not None:
            self.member(st, e, b)
        if base[0] in ('intersection', 'difference'):
            self.member(st, e, base[1])
            if base[2] is not None:
                if base[0] == 'intersection':
                    self.member(st, e, base[2])
                else:
                    st.facts[('in', e, base[2])] = False

    def in_base(self, st, k, base):
        """Is k one of the elements base stands for?"""
        f = st.facts.get(('in', k, base))
        if f is not None or base[0] not in ('intersection', 'difference') or base[2] is None:
            return [(st, f)] if f is not None else self.fork(st, ('in', k, base))
        out = []
        for s, a in self.in_base(st, k, base[1]):
            if a is False:
                out.append((s, False))
            else:
                out.extend((s2, b if base[0] == 'intersection' else not b) for s2, b in self.in_base(s, k, base[2]))
        return out

    def coll_base(self, v):
        """Symbolic collections: the collection whose membership a derived one shares."""
        while v[0] == 's' and v[1][0] in ('asset', 'aslist'):
            v = v[1][1]
        return v

    def in_seq(self, st, k, items):
        sts = [(st, False)]
        for x in items:
            nxt = []
            for s, r in sts:
                if r is False:
                    for s2, r2 in self.is_or_eq(s, k, x):
                        nxt.append((s2, r2))
                else:
                    nxt.append((s, r))
            sts = nxt
        return sts

    def is_or_eq(self, st, a, b):
        if a[0] in ('H', 'cls') or b[0] in ('H', 'cls'):
            return self.is_(st, a, b)
        return self.eq(st, a, b)

    def in_coll(self, st, k, ref, o):
        out = []
        rem = []
        for s, r in self.in_seq(st, k, o.strong):
            if r is False:
                rem.append(s)
            else:
                out.append((s, r))
        for s in rem:
            cand = False
            if has_old(k):
                cand = bool(o.weak or o.others)
            else:
                for w in o.weak:
                    if not (self.distinct_by_sort(k, w) or self.kind_incompatible(s, k, w)):
                        cand = True
            if k in o.removed:
                out.append((s, False))
                continue
            if o.others and not has_old(k):
                base = o.others[0]
                f = s.facts.get(('in', k, base))
                if f is not None and not cand:
                    out.append((s, f))
                    continue
                if self.focus_not_other(k, o):
                    if not cand:
                        out.append((s, False))
                        continue
                elif not cand:
                    out.extend(self.in_base(s, k, base))
                    continue
                cand = True
            if cand:
                if mentions_old(k):
                    out.append((s.copy(), True))
                    out.append((s, False))
                else:
                    out.extend(self.fork(s, ('has', k, ref)))
            else:
                out.append((s, False))
        return out

    def touch(self, st, ref):
        """A collection is about to change: what was found out about its members may no longer hold."""
        if st.facts:
            for f in [f for f in st.facts if f[0] == 'has' and f[2] == ref]:
                del st.facts[f]

    def focus_not_other(self, k, o):
        """The focus element is never among the 'others' of its own family."""
        if k not in self.world.focus or not o.others:
            return False
        tag = o.others[1]
        kt = k[2] if k[0] == 's' else None
        return kt == tag and kt in self.world.sorts and 'excl' in o.flags

    # ---------------------------------------------------------------- dicts
    def dict_get(self, st, ref, k):
        """-> list of (st, ('hit', v) | ('miss',) | raise)."""
        if ref[0] != 'r' or ref[1] not in st.heap:
            a, b = st.copy(), st
            return [(a, ('hit', old('any'))), (b, ('miss',))]
        o = st.heap[ref[1]]
        out = []
        pend = [st]
        for kk, vv in o.strong:
            nxt = []
            for s in pend:
                for s2, r in self.is_or_eq(s, k, kk):
                    if r is True:
                        out.append((s2, ('hit', vv)))
                    elif r is False:
                        nxt.append(s2)
                    else:
                        out.append((s2, r))
            pend = nxt
        if k in o.removed:
            return out + [(s, ('miss',)) for s in pend]
        base = o.others[0] if o.others else ref
        for kk, vv in o.opt:
            nxt = []
            for s in pend:
                for s2, r in self.is_or_eq(s, k, kk):
                    if r is True:
                        for s3, b in self.fork(s2, ('in', kk, base)):
                            out.append((s3, ('hit', vv) if b else ('miss',)))
                    else:
                        nxt.append(s2)
            pend = nxt
        for s in pend:
            poss = [(kk, vv) for kk, vv in o.weak
                    if not (self.distinct_by_sort(k, kk) or (not has_old(k) and self.kind_incompatible(s, k, kk)
                            and not {self.vtag(s, k), self.vtag(s, kk)} <= {'key', 'name', 'str', 'any'}))]
            rest = bool(o.others) and not self.focus_not_other(k, o)
            vtag = o.others[2] if rest and len(o.others) > 2 else 'any'
            if has_old(k):
                out.extend((s.copy(), ('hit', vv)) for kk, vv in poss)
                if rest:
                    out.append((s.copy(), ('hit', old(vtag))))
                out.append((s, ('miss',)))
                continue
            val = ('hit', ('s', ('val', base, k), vtag))
            if not poss:
                if rest:
                    for s3, b in self.fork(s, ('in', k, base)):
                        out.append((s3, val if b else ('miss',)))
                else:
                    out.append((s, ('miss',)))
                continue
            inb = s.facts.get(('in', k, base)) if rest else False
            for s3, b in [(s, True)] if inb is True else self.fork(s, ('has', k, ref)):
                if b:
                    out.extend((s3.copy(), h) for h in dict.fromkeys(('hit', vv) for kk, vv in poss))
                    if inb is not False:
                        s3.facts[('in', k, base)] = True
                        out.append((s3, val))
                else:
                    if rest:
                        s3.facts[('in', k, base)] = False
                    out.append((s3, ('miss',)))
        return out

    def dict_set(self, st, ref, k, v):
        o = st.heap[ref[1]]
        self.touch(st, ref)
        if has_old(k):
            st.heap[ref[1]] = o.copy(weak=o.weak | {(k, v)}, ne=True)
            return [st]
        strong = []
        done = False
        for kk, vv in o.strong:
            if kk == k:
                strong.append((kk, v))
                done = True
            else:
                strong.append((kk, vv))
        if not done:
            strong.append((k, v))
        opt = tuple((a, b) for a, b in o.opt if a != k)
        st.heap[ref[1]] = o.copy(strong=tuple(strong), opt=opt, removed=o.removed - {k})
        return [st]

    def dict_del(self, st, ref, k):
        o = st.heap[ref[1]]
        self.touch(st, ref)
        strong = tuple((a, b) for a, b in o.strong if a != k)
        opt = tuple((a, b) for a, b in o.opt if a != k)
        removed = o.removed
        if (o.others or o.opt != opt) and not has_old(k):
            removed = removed | {k}
        st.heap[ref[1]] = o.copy(strong=strong, opt=opt, removed=removed, ne=None)
        return [st]

    # ------------------------------------------------------------ iteration
    def iter_space(self, st, v, node):
        """-> list of (st, Space | raise)."""
        t = v[0]
        if t == '!':
            return [(st, v)]
        if t == 't':
            return [(st, Space(v[1], exact=True))]
        if t == 'c':
            if isinstance(v[2], (str, bytes)):
                return [(st, Space([C(x) for x in v[2]], exact=True))]
            return [self.raise_(st, TypeError, node)]
        if t == 'view':
            return self.view_space(st, v, node)
        if t == 'enum':
            out = []
            for s, sp in self.iter_space(st, v[1], node):
                if isinstance(sp, Space):
                    i = [0]

                    def wrap(x, n, base=v[1], ex=sp.exact):
                        return ('t', (C(n) if ex else ('s', ('idx', base, x), 'int'), x))
                    sp2 = Space([wrap(x, n) for n, x in enumerate(sp.items)],
                                [('t', (('o', 'int'), x)) for x in sp.weak], None, sp.exact, sp.may_raise, sp.ne,
                                src=sp.src, wrap=lambda x, i, w=sp.wrap: ('t', (C(i), w(x, i) if w else x)))
                    if sp.gen:
                        g = sp.gen
                        sp2.gen = lambda s_, g=g, base=v[1]: ('t', (('s', ('idx', base, g(s_)), 'int'), g(s_)))
                    out.append((s, sp2))
                else:
                    out.append((s, sp))
            return out
        if t == 'idxrange':
            out = []
            for s, sp in self.iter_space(st, v[1], node):
                if isinstance(sp, Space):
                    base = v[1]
                    sp2 = Space([C(n) if sp.exact else ('s', ('idx', base, x), 'int') for n, x in enumerate(sp.items)],
                                [('o', 'int') for x in sp.weak], None, sp.exact, False, sp.ne)
                    if sp.gen:
                        g = sp.gen
                        sp2.gen = lambda s_, g=g, base=base: ('s', ('idx', base, g(s_)), 'int')
                    out.append((s, sp2))
                else:
                    out.append((s, sp))
            return out
        if t == 'zip':
            return self.zip_space(st, v, node)
        if t == 'r':
            o = st.heap.get(v[1])
            if o is None:
                return [(st, Space(gen=lambda s: self.fresh(node, 'el')))]
            if o.kind in ('list', 'set'):
                gen = None
                if o.others:
                    base, tag = o.others[0], o.others[1]

                    def gen(s, base=base, tag=tag):
                        e = ('s', ('el', self.at(), base), tag)
                        self.member(s, e, base)
                        return e
                return [(st, Space(o.strong, sorted(o.weak, key=repr), gen, exact=o.exact() and
                                   (o.kind == 'list' or len(o.strong) <= 1) and o.ne is not True,
                                   may_raise='user' in o.flags, ne=o.ne, ordered=o.kind == 'list', src=v))]
            if o.kind == 'dict':
                return self.view_space(st, ('view', 'keys', v), node)
            if o.kind == 'range':
                a, b = o.strong
                if a[0] == 'c' and b[0] == 'c' and b[2] - a[2] <= 64:
                    return [(st, Space([C(i) for i in range(a[2], b[2])], exact=True))]
                return [(st, Space(gen=lambda s: self.fresh(node, 'el', 'int')))]
            if o.kind == 'inst':
                c, e = self.class_lookup(o.cls, '__iter__', st)
                if e is not None and e[0] == 'func':
                    out = []
                    for s, r in self.call(st, ('bm', ('fn', e[1].qual, None), v), (), {}, node):
                        out.extend([(s, r)] if is_raise(r) else self.iter_space(s, r, node))
                    return out
            return [(st, Space(gen=lambda s: self.fresh(node, 'el')))]
        if t == 'H':
            try:
                items = [self.wrap_host(st, x, node) for x in v[1].obj]
                return [(st, Space(items, exact=True))]
            except TypeError:
                return [self.raise_(st, TypeError, node)]
        if t in ('s', 'o'):
            return self.sym_space(st, v, node)
        return [(st, Space(gen=lambda s: self.fresh(node, 'el')))]

    def sym_space(self, st, v, node):
        if v[0] == 'o':
            return [(st, Space(weak=[old('any')]))]
        w = self.world
        f = getattr(w, 'sym_iter', None)
        if f is not None:
            r = f(self, st, v, node)
            if r is not None:
                return r
        base = self.coll_base(v)
        return [(st, Space(gen=lambda s: ('s', ('el', self.at(), base), 'str' if v[0] == 's' and v[2] == 'str' else w.elem_tag(v) if hasattr(w, 'elem_tag') else 'any')))]

    def view_space(self, st, v, node):
        kind, ref = v[1], v[2]
        if ref[0] != 'r' or ref[1] not in st.heap:
            def gen(s):
                k, x = self.fresh(node, 'elk'), self.fresh(node, 'elv')
                return k if kind == 'keys' else x if kind == 'values' else ('t', (k, x))
            return [(st, Space(gen=gen))]
        o = st.heap[ref[1]]
        pick = (lambda k, x: k) if kind == 'keys' else (lambda k, x: x) if kind == 'values' else \
            (lambda k, x: ('t', (k, x)))
        base = o.others[0] if o.others else ref
        sts = [(st, [])]
        for k, x in o.opt:
            nxt = []
            for s, acc in sts:
                for s2, b in self.fork(s, ('in', k, base)):
                    nxt.append((s2, acc + [(k, x)] if b else acc))
            sts = nxt
        out = []
        for s, acc in sts:
            gen = None
            if o.others:
                ktag = o.others[1]
                vtag = o.others[2] if len(o.others) > 2 else 'any'

                def gen(s_, base=base, ktag=ktag, vtag=vtag):
                    k = ('s', ('el', self.at(), base), ktag)
                    self.member(s_, k, base)
                    return pick(k, ('s', ('val', base, k), vtag))
            out.append((s, Space([pick(k, x) for k, x in list(o.strong) + acc],
                                 [pick(k, x) for k, x in sorted(o.weak, key=repr)], gen,
                                 exact=o.exact() and o.ne is not True, may_raise='user' in o.flags, src=ref)))
        return out

    def zip_space(self, st, v, node):
        spaces = [(st, [])]
        for x in v[1]:
            nxt = []
            for s, acc in spaces:
                if acc is None:
                    nxt.append((s, acc))
                    continue
                for s2, sp in self.iter_space(s, x, node):
                    nxt.append((s2, acc + [sp] if isinstance(sp, Space) else ('raise', sp)))
            spaces = nxt
        out = []
        for s, acc in spaces:
            if isinstance(acc, tuple):
                out.append((s, acc[1]))
                continue
            if all(sp.exact for sp in acc):
                n = min(len(sp.items) for sp in acc) if acc else 0
                out.append((s, Space([('t', tuple(sp.items[i] for sp in acc)) for i in range(n)], exact=True)))
                continue
            # pair the focus element of one collection with whatever stands beside it
            lead = next((i for i, sp in enumerate(acc) if not sp.exact and (sp.items or sp.gen or sp.weak)), None)
            if lead is None:
                out.append((s, Space(exact=True)))
                continue
            coll = v[1]

            def beside(j, x):
                sp = acc[j]
                if coll[j][0] == 'count':
                    return ('o', 'int')
                return ('s', ('beside', coll[j], x), 'any') if not has_old(x) else old('any')
            items = [('t', tuple(x if j == lead else beside(j, x) for j in range(len(acc)))) for x in acc[lead].items]
            weak = [('t', tuple(x if j == lead else old('any') for j in range(len(acc)))) for x in acc[lead].weak]
            gen = None
            if acc[lead].gen:
                g = acc[lead].gen

                def gen(s_, g=g, lead=lead, n=len(acc)):
                    x = g(s_)
                    return ('t', tuple(x if j == lead else beside(j, x) for j in range(n)))
            out.append((s, Space(items, weak, gen)))
        return out

    def loop(self, node, st, space, body, tagname='L'):
        """Run body over a Space.

        body(st, item) -> list of (kind, st, val). Returns (exhausted, broke, outs).
        """
        held = []
        for x in space.items:
            held.extend(vrefs(x))
        for x in space.weak:
            held.extend(vrefs(x))
        if space.src is not None and isinstance(node, ast.For):
            held.extend(vrefs(space.src))
        HOLD.append(held)
        try:
            return self.loop_(node, st, space, body, tagname)
        finally:
            HOLD.pop()

    def loop_(self, node, st, space, body, tagname):
        exhausted, broke, outs = [], [], []
        nk = self.nk(node)
        saved = self.ctx
        live = space.src is not None and isinstance(node, ast.For) and st.heap.get(space.src[1]) or None
        if live is not None and live.kind == 'list' and space.exact:
            return self.list_loop(node, st, space, body, tagname)
        if live is not None and live.kind in ('dict', 'set'):
            body = self.sized(node, space.src[1], live, body)
        if space.exact:
            cur = [st]
            for i, item in enumerate(space.items):
                nxt = []
                self.ctx = saved + ((nk, tagname, 'e', i),)
                for s in cur:
                    for kind, s2, val in body(s, item):
                        if kind in 'NC':
                            nxt.append(s2)
                        elif kind == 'B':
                            broke.append(s2)
                        else:
                            outs.append((kind, s2, val))
                self.ctx = saved
                cur = self.dedupe_states(nxt)
            return cur, broke, outs
        self.ctx = saved
        allidx = frozenset(range(len(space.items)))
        seen = {}
        work = [(st, allidx, False)]
        if space.ne is True and not space.items:
            first = True
        else:
            first = False
        omark = saved + ((nk, tagname, 'o'),)
        nexh = {}
        while work:
            s, rem, began = work.pop()
            lv = self.liveness() if isinstance(node, ast.For) else None
            if lv is not None and id(node) in lv.head:
                self.drop_dead(s, lv.head[id(node)] | lv.always)
            k = (s.skel(), rem, began if first else None)
            prev = seen.get(k)
            if prev is not None:
                s = prev.join(s)
                if s is None:
                    continue
            seen[k] = s
            self.tick(5)
            if not rem and (began or not first):
                exhausted.append(s.copy())
            if space.may_raise:
                s2 = s.copy()
                s2.note(f'{self.loc(node)}: the iterated mapping raises')
                outs.extend(('X', a, b[1]) for a, b in self.user_raise(s2, 'Other', node))
            for i in (sorted(rem)[:1] if space.ordered else sorted(rem)):
                self.ctx = saved + ((nk, tagname, 'f', i),)
                for kind, s2, val in body(s.copy(), space.items[i]):
                    if kind in 'NC':
                        work.append((s2, rem - {i}, True))
                    elif kind == 'B':
                        broke.append(s2)
                    else:
                        outs.append((kind, s2, val))
                self.ctx = saved
            cands = [(w, None) for w in space.weak]
            if space.gen:
                cands.append((None, space.gen))
            for w, g in cands:
                self.ctx = omark
                s1 = s.copy()
                item = self.materialise(s1, w) if g is None else g(s1)
                for kind, s2, val in body(s1, item):
                    if kind in 'NC':
                        self.age_ctx(s2, omark)
                        for name, x in s2.env.items():
                            # counters: any number of further members
                            if x != s.env.get(name) and self.is_int(x) and x[0] != 'len' and name in s.env \
                                    and self.is_int(s.env[name]):
                                s2.env[name] = old('int')
                        work.append((s2, rem, True))
                    elif kind == 'B':
                        s2.flags = s2.flags
                        broke.append(s2)
                    else:
                        outs.append((kind, s2, val))
                self.ctx = saved
        return self.dedupe_states(exhausted), self.dedupe_states(broke), self.dedupe_outs(outs)

    def list_loop(self, node, st, space, body, tagname):
        """A loop over a known list: what it visits is read from the list at every step."""
        broke, outs, done = [], [], []
        nk = self.nk(node)
        saved = self.ctx
        uid = space.src[1]
        cur, i = [st], 0
        while cur:
            nxt = []
            self.ctx = saved + ((nk, tagname, 'e', i),)
            for s in cur:
                o = s.heap.get(uid)
                strong = o.strong if o is not None and o.exact() else None
                if strong is None:           # it grew in a way not followed
                    items = space.items
                    if i >= len(items):
                        done.append(s)
                        continue
                    item = items[i]
                elif i >= len(strong):
                    done.append(s)
                    continue
                else:
                    item = space.wrap(strong[i], i) if space.wrap else strong[i]
                if i > 200:
                    raise AnalysisBroken('a loop over a growing list')
                for kind, s2, val in body(s, item):
                    if kind in 'NC':
                        nxt.append(s2)
                    elif kind == 'B':
                        broke.append(s2)
                    else:
                        outs.append((kind, s2, val))
            self.ctx = saved
            cur = self.dedupe_states(nxt)
            i += 1
        return self.dedupe_states(done), broke, outs

    def sized(self, node, uid, live, body):
        """Changing the size of a dictionary or set ends a loop over it with an error."""
        def keys(o):
            return frozenset(x[0] for x in o.strong) if o.kind == 'dict' else frozenset(o.strong)
        k0 = keys(live)

        def run(s, item):
            out = []
            for kind, s2, val in body(s, item):
                o = s2.heap.get(uid)
                if kind in 'NC' and o is not None and o is not live and o.opt == live.opt and \
                        (len(keys(o)) != len(k0) and o.weak == live.weak and o.removed == live.removed or
                         len(keys(o)) <= len(k0) and o.weak == live.weak and o.removed > live.removed):
                    s3, x = self.raise_(s2, RuntimeError, node, 'changed size during iteration')
                    out.append(('X', s3, x[1]))
                else:
                    out.append((kind, s2, val))
            return out
        return run

    def materialise(self, st, w):
        """A summarised element of a known collection, looked at on its own."""
        if w[0] == 'o' and len(w) > 2 and w[2][0] == 's':
            e = ('s', ('el', self.at(), w[2]), w[1])
            self.member(st, e, w[2])
            return e
        return w

    def dedupe_states(self, sts):
        if len(sts) < 2:
            return sts
        return [s for _, s in self.joined([((), s) for s in sts])]

    def joined(self, items):
        """Join states that carry the same tag and the same skeleton."""
        groups = {}
        for tag, s in items:
            groups.setdefault((tag, s.ev, len(s.env), s.flags), []).append((tag, s))
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
                continue
            seen = {}
            for tag, s in g:
                k = s.skel(tag)
                p = seen.get(k)
                if p is not None:
                    s = p[1].join(s)
                    if s is None:
                        continue
                seen[k] = (tag, s)
            res.extend(seen.values())
        return res

    def dedupe_outs(self, outs):
        if len(outs) < 2:
            return outs
        return [(t[0], s, t[1]) for t, s in self.joined([((k, v), s) for k, s, v in outs])]

    def dedupe_vals(self, res):
        if len(res) < 4:
            return res
        return [(s, t[0]) for t, s in self.joined([((v,), s) for s, v in res])]

    # ------------------------------------------------------------- name lookup
    def frame(self):
        return self.fids[-1]

    def lookup(self, st, name, node):
        fi = self.stack[-1] if self.stack else None
        if fi is not None:
            fid = self.fids[-1]
            v = st.env.get((fid, name))
            if v is not None:
                return [(st, v)]
            # enclosing scopes
            c = st.env.get((fid, '!closure'))
            while c is not None and c[1] is not None:
                v = st.env.get((c[1], name))
                if v is not None:
                    return [(st, v)]
                c = st.env.get((c[1], '!closure'))
            if name in fi.locals and name not in fi.globals and name not in fi.nonlocals and fi.parent is None \
                    and (fid, '!classbody') not in st.env:
                return [self.raise_(st, UnboundLocalError, node)]
            return self.global_value(st, fi.mod.name, name, node)
        return self.global_value(st, '', name, node)

    def global_value(self, st, modname, name, node, depth=0):
        r = self.world.glob(self, st, modname, name)
        if r is not None:
            return [(st, r)]
        g = st.env.get(('G', modname, name))
        if g is not None:
            return [(st, g)]
        e = self.repo.find_global(modname, name) if modname else None
        if e is None:
            if modname and name == '__name__':
                return [(st, C(modname))]
            b = getattr(builtins, name, None) if hasattr(builtins, name) else None
            if b is not None or name in ('None',):
                return [(st, self.wrap_host(st, b, node))]
            if hasattr(builtins, name):
                return [(st, C(None))]
            self.unknown[('name', modname, name)] += 1
            return [(st, S(('unknown-name', modname, name)))]
        if e[0] == 'class':
            return [(st, ('cls', e[1].qual))]
        if e[0] == 'func':
            fv = ('fn', e[1].qual, None)
            if not e[1].decos:
                return [(st, fv)]
            saved = (self.ctx, self.stack, self.fids)
            self.ctx, self.stack, self.fids = (('glob', modname, name),), [ModuleFrame(self.repo.modules[modname])], [('glob', modname, name)]
            try:
                res = [(st, fv)]
                for d in reversed(e[1].decos):
                    res = [r for s, x in res for s2, dv in self.ev(d, s) for r in self.call(s2, dv, (x,), {}, d)]
                for s, x in res:
                    if not is_raise(x):
                        s.env[('G', modname, name)] = x
                return res
            finally:
                self.ctx, self.stack, self.fids = saved
        if e[0] == 'import':
            src, nm = e[1], e[2]
            if nm is None:
                if src in self.repo.modules:
                    return [(st, ('mod', src))]
                m = host_import(src)
                return [(st, H(m) if m is not None else S(('module', src)))]
            if src in self.repo.modules:
                if f'{src}.{nm}' in self.repo.modules and self.repo.find_global(src, nm) is None:
                    return [(st, ('mod', f'{src}.{nm}'))]
                if depth > 12:
                    return [(st, S(('unknown-name', src, nm)))]
                return self.global_value(st, src, nm, node, depth + 1)
            m = host_import(src)
            if m is not None and hasattr(m, nm):
                return [(st, self.wrap_host(st, getattr(m, nm), node))]
            sub = host_import(f'{src}.{nm}')
            if sub is not None:
                return [(st, H(sub))]
            return [(st, S(('import', src, nm)))]
        if e[0] == 'expr':
            m = self.repo.modules[modname]
            # the MISSING sentinel and other module level objects
            saved = (self.ctx, self.stack, self.fids)
            self.ctx = (('glob', modname, name),)
            fi = ModuleFrame(m)
            self.stack = [fi]
            self.fids = [('glob', modname, name)]
            try:
                out = []
                for s, v in self.ev(e[1], st):
                    if not is_raise(v):
                        if v[0] == 'r' and v[1] in s.heap and s.heap[v[1]].kind == 'inst' and \
                                s.heap[v[1]].cls[0] == 'cls' and name == 'MISSING':
                            o = s.heap.pop(v[1])
                            v = ('r', self.uid((-1, ('MISSING',), 0)))
                            self.missing_uids.add(v[1])
                            s.heap[v[1]] = o
                        elif v[0] == 'r' and v[1] in s.heap:
                            o = s.heap.pop(v[1])
                            v = ('r', self.uid((-1, ('global', modname, name), 0)))
                            s.heap[v[1]] = o
                        s.env[('G', modname, name)] = v
                    out.append((s, v))
                return out
            finally:
                self.ctx, self.stack, self.fids = saved
        return [(st, S(('unknown-name', modname, name)))]

    def wrap_host(self, st, o, node):
        if o is None or isinstance(o, (bool, int, str, float, bytes)) or o is Ellipsis:
            return C(o)
        if type(o) is tuple:
            return ('t', tuple(self.wrap_host(st, x, node) for x in o))
        if type(o) is list:
            return self.alloc(st, Obj('list', strong=tuple(self.wrap_host(st, x, node) for x in o)), node, 'hl')
        if type(o) in (dict,) or type(o).__name__ == 'mappingproxy':
            return self.alloc(st, Obj('dict', strong=tuple((self.wrap_host(st, a, node), self.wrap_host(st, b, node))
                                                           for a, b in o.items())), node, 'hd')
        if type(o) in (set, frozenset):
            return self.alloc(st, Obj('set', strong=tuple(self.wrap_host(st, x, node) for x in sorted(o, key=repr))), node, 'hs')
        return H(o)


class ModuleFrame:
    """Stands for module level code on the analysis stack."""
    def __init__(self, mod):
        self.mod = mod
        self.qual = f'{mod.name}:<module>'
        self.cls = None
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.parent = None
        self.name = '<module>'
        self.has_inner = True
        self.is_gen = False


def _probe_fn():
    pass


OPS = {'<': _operator.lt, '<=': _operator.le, '>': _operator.gt, '>=': _operator.ge, '==': _operator.eq,
       '!=': _operator.ne}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def depth(v):
    return 1 + max((depth(x) for x in v if isinstance(x, tuple)), default=0)


def has_old(v):
    t = v[0]
    if t == 'o':
        return True
    if t == 's':
        return mentions_old(v[1])
    if t in ('c', 'H', 'r', 'cls', 'fn', 'mod'):
        return False
    return mentions_old(v)


def mentions_old(t):
    for x in t:
        if isinstance(x, tuple) and x:
            if x[0] == 'o':
                return True
            if x[0] in ('c', 'H', 'r', 'cls', 'fn', 'mod', '@'):
                continue
            if mentions_old(x):
                return True
    return False


def is_raise_res(r):
    return isinstance(r, tuple) and r and r[0] == '!'


def build_models():
    from . import models
    return models.MODELS


# the evaluator half of Interp lives in its own module
from . import evaluator as _evaluator  # noqa: E402
for _n, _f in vars(_evaluator.Evaluator).items():
    if not _n.startswith('__'):
        setattr(Interp, _n, _f)

from . import models as _models  # noqa: E402
Interp.call_hm = _models.call_hm
Interp.set_op = _models.set_op
Interp.is_none_fact = _models.is_none_fact
