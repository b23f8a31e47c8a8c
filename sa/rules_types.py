"""Rules about the validation of values against type expressions."""
import collections.abc
import types
import typing

from .direct import Direct, exc_name
from .engine import C, H, NONE, TRUE, FALSE, Obj, S, World, is_raise
from .ops import NODE, LIVE
from .registry import Job

MOD = 'oblate.type_validation'
K, U = S('k*', 'key'), S('u*', 'key')


class Leaf:
    """Stands for any class: the library knows nothing of it."""


class A(Leaf):
    pass


class B(Leaf):
    pass


class D(Leaf):
    pass


LEAVES = (A, B, D)
MAPPING = H(types.MappingProxyType)
KIND = {list: 'list', set: 'set', dict: 'dict', collections.abc.Mapping: 'dict'}


class TyWorld(World):
    focus = frozenset({K, U})
    max_recursion = 9

    def __init__(self, repo):
        self.repo = repo
        self.mine = set()              # the values whose conformance is asked
        self.plain = set()             # of these: no containers
        self.hashed = set()            # of these: known to be hashable
        self.mutations = []
        self.given = set()
        self.warn = S('cfg.warn', 'bool')

    def glob(self, it, st, mod, name):
        if name == 'config' and mod:
            e = self.repo.find_global(mod, name)
            if e is not None and (mod.endswith('.configs') or e[0] == 'import' and e[2] == 'config'):
                return LIVE
        return None

    def attr(self, it, st, v, name, node):
        if v[0] == 'mod' and v[1] == self.repo.package and name == 'config':
            return [(st, LIVE)]
        if v == LIVE and name == 'warn_unsupported_types':
            return [(st, self.warn)]
        return None

    def decide_isinstance(self, it, st, v, cv):
        if cv[0] != 'H':
            return None
        if v in self.mine:
            if cv[1].obj in LEAVES or v not in self.plain:
                return None
            return False if cv[1].obj in CONTAINERS else None
        if v[0] in 'so' and v[-1] == 'any':
            return True                # the values around the one asked about conform
        return None

    def call(self, it, st, fv, args, kwargs, node):
        if fv[0] == 'H' and len(args) == 1 and args[0][0] in 'so' and args[0][-1] == 'leafclass':
            r = {'get_origin': NONE, 'get_args': ('t', ()), 'is_typeddict': FALSE}.get(getattr(fv[1].obj, '__name__', ''))
            if r is not None:
                return [(st, r)]
        return None

    def may_not_hash(self, v):
        return v in self.mine and v not in self.hashed

    def mutate(self, it, st, target, what, node):
        if target in self.given:
            self.mutations.append((it.loc(node), what, st))


CONTAINERS = (list, set, dict, tuple, frozenset, str, bytes, int, float, bool, type(None), collections.abc.Mapping,
              collections.abc.Sequence, collections.abc.Set, collections.abc.MutableMapping, collections.abc.Iterable,
              collections.abc.MutableSequence, collections.abc.Collection, collections.abc.Sized)


# ------------------------------------------------------------------ what a type expression means
def view(tp):
    """(kind, inner types) of a supported type expression."""
    if tp is typing.Any:
        return 'any', ()
    if tp in (typing.List, typing.Set, typing.Dict, typing.Tuple, typing.Mapping, typing.Sequence):
        o = typing.get_origin(tp)
        return {list: ('list', (typing.Any,)), set: ('set', (typing.Any,)), dict: ('dict', (typing.Any,) * 2),
                tuple: ('tuple*', (typing.Any,)), collections.abc.Mapping: ('mapping', (typing.Any,) * 2),
                collections.abc.Sequence: ('sequence', (typing.Any,))}[o]
    o, a = typing.get_origin(tp), typing.get_args(tp)
    if o is None:
        if typing.is_typeddict(tp):
            return 'typeddict', ()
        try:
            isinstance(None, tp)
        except TypeError:
            return 'unsupported', ()
        return 'class', ()
    if o is typing.Union or o is types.UnionType:
        return 'union', a
    if o is typing.Literal:
        return 'literal', a
    if o in (typing.Required, typing.NotRequired):
        return 'wrap', a
    if o is tuple:
        return ('tuple*', a[:1]) if len(a) == 2 and a[1] is Ellipsis else ('tuple', a)
    r = {list: 'list', set: 'set', dict: 'dict', collections.abc.Mapping: 'mapping', collections.abc.Sequence: 'sequence'}.get(o)
    return (r, a) if r else ('unsupported', ())


def conj(bs):
    bs = list(bs)
    return False if False in bs else None if None in bs else True


def disj(bs):
    bs = list(bs)
    return True if True in bs else None if None in bs else False


class Conform:
    """Does a value conform to a type, judging by what one path has found out: True, False or None (unknown)."""

    def __init__(self, w, st):
        self.w, self.st = w, st

    def kind(self, v):
        if v[0] == 't':
            return 'tuple'
        if v[0] == 'r':
            o = self.st.heap[v[1]]
            return 'mapping' if o.cls == MAPPING else o.kind
        return None

    def isinst(self, v, c):
        k = self.kind(v)
        if k:
            return issubclass({'list': list, 'set': set, 'dict': dict, 'tuple': tuple, 'mapping': types.MappingProxyType}[k], c)
        if v[0] == 'c':
            return isinstance(v[2], c)
        d = self.w.decide_isinstance(None, self.st, v, H(c))
        if d is not None:
            return d
        for f, b in self.st.facts.items():
            if f[0] == 'isinst' and f[1] == v and f[2][0] == 'H':
                if b and issubclass(f[2][1].obj, c) or not b and issubclass(c, f[2][1].obj):
                    return b
        if self.st.facts.get(('isnone', v)) is True:
            return issubclass(type(None), c)
        return None

    def __call__(self, v, tp):
        k, a = view(tp)
        vk = self.kind(v)
        if k in ('any', 'unsupported'):
            return True
        if k == 'class':
            return self.isinst(v, tp)
        if k == 'union':
            return disj(self(v, x) for x in a)
        if k == 'wrap':
            return self(v, a[0])
        if k == 'literal':
            if vk:
                return False
            return disj(v == C(x) if v[0] == 'c' else self.st.facts.get(('isnone', v)) if x is None else
                        self.st.facts.get(('eq', v, C(x)), self.st.facts.get(('eq', C(x), v))) for x in a)
        if v[0] == 's':
            c = {'list': list, 'set': set, 'dict': dict, 'mapping': collections.abc.Mapping, 'tuple': tuple, 'tuple*': tuple,
                 'typeddict': dict}.get(k)
            r = disj(self.isinst(v, c) for c in (list, set, tuple)) if c is None else self.isinst(v, c)
            return False if r is False else None
        if k == 'tuple':
            if vk != 'tuple' or len(v[1]) != len(a):
                return False
            return conj(self(x, y) for x, y in zip(v[1], a))
        if k == 'tuple*':
            return vk == 'tuple' and conj(self(x, a[0]) for x in v[1])
        if k in ('list', 'set'):
            return vk == k and conj(self(x, a[0]) for x in self.st.heap[v[1]].strong)
        if k == 'sequence':
            xs = v[1] if vk == 'tuple' else self.st.heap[v[1]].strong if vk in ('list', 'set') else None
            return xs is not None and conj(self(x, a[0]) for x in xs)
        if k in ('dict', 'mapping'):
            if vk not in (('dict',) if k == 'dict' else ('dict', 'mapping')):
                return False
            return conj(b for x, y in self.st.heap[v[1]].strong for b in (self(x, a[0]), self(y, a[1])))
        if k == 'typeddict':
            if vk != 'dict':
                return False
            return conj(self.typed(v, tp))
        raise AssertionError(k)

    def typed(self, v, tp):
        have = dict(self.st.heap[v[1]].strong)
        for name, hint in DECLARED[tp].items():
            x = have.pop(C(name), None)
            yield self(x, hint[1]) if x is not None else not hint[0]
        yield not have


# ------------------------------------------------------------------ values to ask about
class Values:
    """Symbolic values of interest for a type: of its shape with anything inside, and of other shapes."""

    def __init__(self, sc, st):
        self.sc, self.st, self.n, self.keys = sc, st, 0, 0

    def sym(self, plain=True):
        self.n += 1
        v = S(('v', self.n), 'any')
        self.sc.w.mine.add(v)
        if plain:
            self.sc.w.plain.add(v)
        if self.keys:
            self.sc.w.hashed.add(v)
        return v

    def obj(self, kind, strong, others=None, cls=None):
        self.n += 1
        return self.sc.it.alloc(self.st, Obj(kind, cls, strong=tuple(strong), others=others, flags=frozenset({'excl'})),
                                NODE, ('value', self.n))

    def others(self, *inner):
        """Any number of further members, all of which conform."""
        if all(view(t)[0] in ('class', 'any') or view(t)[0] == 'union' and all(view(x)[0] == 'class' for x in view(t)[1])
               for t in inner):
            self.n += 1
            return S(('more', self.n), 'dict' if len(inner) == 2 else 'list')
        return None

    def key(self, shape):
        self.keys += 1
        try:
            return self.build(shape)
        finally:
            self.keys -= 1

    def build(self, shape):
        """shape: a nested description made by shapes()."""
        k = shape[0]
        if k == 'sym':
            return self.sym()
        if k == 'const':
            return C(shape[1])
        if k in ('list', 'set'):
            o = self.others(shape[2]) if shape[2] is not None else None
            return self.obj(k, [self.build(s) if k == 'list' else self.key(s) for s in shape[1]], (o, 'any') if o else None)
        if k == 'tuple':
            return ('t', tuple(self.build(s) for s in shape[1]))
        if k in ('dict', 'mapping'):
            o = self.others(*shape[2]) if shape[2] is not None else None
            return self.obj('dict', [(self.key(a), self.build(b)) for a, b in shape[1]], (o, 'any', 'any') if o else None,
                            MAPPING if k == 'mapping' else None)
        raise AssertionError(shape)


SYM = ('sym',)


def shapes(tp, deep=True):
    """Descriptions of values worth asking about: every kind of deviation at one position at a time."""
    k, a = view(tp)
    out = []
    if k in ('any', 'class', 'unsupported'):
        return [SYM] + ([('list', [SYM], None)] if k == 'class' and deep else [])
    if k == 'literal':
        return [SYM, ('const', a[0]), ('list', [], None)]
    if k == 'wrap':
        return shapes(a[0], deep)
    if k == 'union':
        for x in a:
            out += shapes(x, deep)
        return uniq(out + [SYM])
    if k in ('list', 'set', 'sequence', 'tuple*'):
        for kk in {'list': ('list', 'set', 'tuple'), 'set': ('set', 'list', 'tuple'), 'sequence': ('list', 'set', 'tuple'),
                   'tuple*': ('tuple', 'list')}[k]:
            right = kk == k or k == 'sequence' or (k, kk) == ('tuple*', 'tuple')
            inner = shapes(a[0], False) if right else [SYM]
            for s in inner:
                if kk == 'set' and s[0] in ('list', 'set', 'dict'):
                    continue
                if kk == 'tuple':
                    good = fit(a[0])
                    out += [('tuple', [s]), ('tuple', [s, good]), ('tuple', [good, good, s])]
                else:
                    out.append((kk, [s], a[0]))
                    out.append((kk, [s, fit(a[0])] if kk == 'list' else [s], None))
            out.append((kk, [], None) if kk != 'tuple' else ('tuple', []))
        return uniq(out + [SYM, ('dict', [(SYM, SYM)], None)])
    if k == 'tuple':
        fits = [fit(x) for x in a]
        out.append(('tuple', list(fits)))
        for i, x in enumerate(a):
            for s in shapes(x, False):
                out.append(('tuple', fits[:i] + [s] + fits[i + 1:]))
        out.append(('tuple', fits + [SYM]))
        if a:
            out.append(('tuple', fits[:-1]))
        out.append(('tuple', []))
        out.append(('list', list(fits), None))
        return uniq(out + [SYM])
    if k in ('dict', 'mapping'):
        for kk in ('dict', 'mapping'):
            right = kk == k or k == 'mapping'
            for i in (0, 1):
                for s in shapes(a[i], False) if right else [SYM]:
                    if i == 0 and s[0] in ('list', 'set', 'dict'):
                        continue
                    kv = (s, fit(a[1])) if i == 0 else (fit(a[0]), s)
                    out.append((kk, [kv], a))
                    out.append((kk, [kv], None))
            out.append((kk, [], None))
        return uniq(out + [SYM, ('list', [SYM], None)])
    if k == 'typeddict':
        names = DECLARED[tp]
        for drop in [()] + [(n,) for n in names] + [tuple(names)]:
            for extra in [x for x in (False, 'undeclared', '', 0, None)[:2 if drop else 5] if x is False or x not in names]:
                kv = [(('const', n), fit(h[1])) for n, h in names.items() if n not in drop]
                if extra is not False:
                    kv.append((('const', extra), SYM))
                out.append(('dict', kv, None))
                if extra is not False:
                    out.append(('dict', kv[::-1], None))
        for n, h in names.items():
            for s in shapes(h[1], False):
                out.append(('dict', [(('const', m), s if m == n else fit(g[1])) for m, g in names.items()], None))
        out.append(('mapping', [(('const', n), fit(h[1])) for n, h in names.items()], None))
        return uniq(out + [SYM, ('list', [SYM], None)])
    raise AssertionError(k)


def fit(tp):
    """A value that may conform."""
    k, a = view(tp)
    if k in ('list', 'set', 'sequence'):
        return ('list' if k != 'set' else 'set', [fit(a[0])], None) if fit(a[0])[0] not in ('list', 'dict', 'set') or k != 'set' \
            else ('set', [], None)
    if k == 'tuple':
        return ('tuple', [fit(x) for x in a])
    if k == 'tuple*':
        return ('tuple', [fit(a[0])])
    if k in ('dict', 'mapping'):
        return ('dict', [(fit(a[0]), fit(a[1]))], None)
    if k in ('union', 'wrap'):
        return fit(a[0])
    if k == 'literal':
        return ('const', a[0])
    if k == 'typeddict':
        return ('dict', [(('const', n), fit(h[1])) for n, h in DECLARED[tp].items()], None)
    return SYM


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


# ------------------------------------------------------------------ typed dictionaries and what they declare
class Total(typing.TypedDict):
    a: A
    b: typing.NotRequired[B]


class Partial(typing.TypedDict, total=False):
    a: A
    b: typing.Required[B]


class PartialChild(Total, total=False):
    c: D


class TotalChild(Partial):
    c: typing.List[A]


class StdTotal(typing.TypedDict):
    a: typing.Required[A]
    b: typing.NotRequired[typing.List[B]]


class StdPartial(typing.TypedDict, total=False):
    a: typing.Union[A, B]


class Outer(typing.TypedDict):
    a: Total
    b: typing.NotRequired[typing.Dict[A, B]]


class Empty(typing.TypedDict):
    pass


class Opts(typing.TypedDict):
    a: typing.Optional[A]
    b: typing.NotRequired[typing.Optional[B]]
    c: typing.Any


class Kinds(typing.TypedDict):
    a: typing.Literal[1, None]
    b: typing.Tuple[A, ...]
    c: typing.NotRequired[typing.Any]


class LooseBase(typing.TypedDict, total=False):
    a: typing.Optional[A]


class Diamond(LooseBase, Empty):
    b: typing.Required[typing.Optional[B]]


class Deep(typing.TypedDict, total=False):
    a: typing.List[Partial]


class Maybe(typing.TypedDict, total=False):
    a: typing.Optional[Total]


Odd = typing.TypedDict('Odd', {'a-b': A, 'class': typing.NotRequired[B], '': typing.Optional[D]})


DECLARED = {
    Opts: {'a': (True, typing.Optional[A]), 'b': (False, typing.Optional[B]), 'c': (True, typing.Any)},
    Kinds: {'a': (True, typing.Literal[1, None]), 'b': (True, typing.Tuple[A, ...]), 'c': (False, typing.Any)},
    Maybe: {'a': (False, typing.Optional[Total])},
    LooseBase: {'a': (False, typing.Optional[A])},
    Diamond: {'a': (False, typing.Optional[A]), 'b': (True, typing.Optional[B])},
    Deep: {'a': (False, typing.List[Partial])},
    Odd: {'a-b': (True, A), 'class': (False, B), '': (True, typing.Optional[D])},
    Total: {'a': (True, A), 'b': (False, B)},
    Partial: {'a': (False, A), 'b': (True, B)},
    PartialChild: {'a': (True, A), 'b': (False, B), 'c': (False, D)},
    TotalChild: {'a': (False, A), 'b': (True, B), 'c': (True, typing.List[A])},
    StdTotal: {'a': (True, A), 'b': (False, typing.List[B])},
    StdPartial: {'a': (False, typing.Union[A, B])},
    Outer: {'a': (True, Total), 'b': (False, typing.Dict[A, B])},
    Empty: {},
}


# ------------------------------------------------------------------ scenarios
class Validate(Direct):
    """validate_types({k*: type}, {k*: value})"""
    op = 'validate'
    world = TyWorld

    def fname(self):
        return ('fn', self.repo.require_func(MOD, 'validate_types'), None)

    def run(self, st):
        tp = self.p['tp']
        for shape in shapes(tp):
            s = st.copy()
            self.it.ctx = (('shape', repr(shape)),)
            value = Values(self, s).build(shape)
            n = len(self.ends)
            self.finish(self.ask(s, value, tp))
            for e in self.ends[n:]:
                e.value, e.shape = value, shape

    def ask(self, s, value, tp):
        types_ = self.it.alloc(s, Obj('dict', strong=((K, H(tp)),)), NODE, 'types')
        values = self.it.alloc(s, Obj('dict', strong=((K, value),)), NODE, 'values')
        self.w.given |= {types_, values, value}
        s.pins = s.pins + (types_, values, value)
        return self.it.call(s, self.fname(), (types_, values), {}, NODE)


def twin(tp):
    t = typing.TypedDict(tp.__name__, {'zz': D}) if tp in DECLARED else type(tp.__name__, (Leaf,), {})
    t.__module__, t.__qualname__ = tp.__module__, tp.__qualname__
    return t


class Again(Validate):
    """The same after another value has been validated against the type."""
    op = 'validate-afresh'

    def run(self, st):
        tp = self.p['tp']
        states = []
        first = uniq([SYM] + shapes(tp)[:1])
        if self.p.get('twin'):      # another type of the same name before
            tp = twin(tp)
            first = [SYM] + ([('dict', [(('const', 'zz'), SYM)], None)] if isinstance(tp, type(Total)) else [])
        for i, shape in enumerate(first):
            s = st.copy()
            self.it.ctx = (('before', i),)
            vals = Values(self, s)
            vals.n = 1000
            pins, facts = s.pins, dict(s.facts)
            given = set(self.w.given)
            for s2, v in self.ask(s, vals.build(shape), tp):
                self.w.given = given
                s2.ev, s2.trace, s2.pins, s2.facts = (), None, pins, dict(facts)
                s2.env = {k: x for k, x in s2.env.items() if k[0] in ('G', 'CA', 'SA', 'MEMO', 'CV')}
                states.append(((), s2))
        for _, s in self.it.joined(states):
            super().run(s)


def reported(e):
    """{key: [messages]} of the error raised, or None."""
    errs = e.read(e.exc, 'errors')
    o = e.st.heap.get(errs[1]) if errs and errs[0] == 'r' else None
    return o


def messages_of(e, ref):
    o = e.st.heap.get(ref[1]) if ref[0] == 'r' else None
    if o is not None and o.kind == 'list':
        return bool(o.strong) or o.ne is True
    return ref[0] == 't' and bool(ref[1])


def t04(R, sc):
    tp = sc.p['tp']
    rule = view(tp)[0]
    for e in sc.ends:
        b, shape = Conform(sc.w, e.st)(e.value, tp), e.shape
        if e.kind == 'ok':
            R.need(b is True, sc, e, f'{rule}-accepts', f'{name(tp)} accepts {say(shape)} ' + (
                'which does not conform' if b is False else 'without having examined all of it'))
        elif R.need(e.kind == 'TypeValidationError', sc, e, 'no-crash', f'validating {say(shape)} against {name(tp)} ends with {e.kind}'):
            R.need(b is False, sc, e, f'{rule}-rejects', f'{name(tp)} rejects {say(shape)} ' + (
                'which conforms' if b else 'without having examined why'))
            o = reported(e)
            if R.need(o is not None and o.kind == 'dict' and [k for k, _ in o.strong] == [K], sc, e, 'errors', 'the error does not list the key'):
                R.need(messages_of(e, o.strong[0][1]), sc, e, 'message', f'{name(tp)} rejects {say(shape)} without a message')
    for at, what, s in sc.w.mutations:
        R.need(False, sc, s.path(), 'unmodified', f'{at}: the value given is modified')
    R.need(True, sc, None, 'unmodified')


def name(tp):
    return str(tp if typing.get_origin(tp) else getattr(tp, '__name__', tp)).replace('sa.rules_types.', '').replace('typing.', '')


def say(shape):
    k = shape[0]
    if k == 'sym':
        return 'a value'
    if k == 'const':
        return repr(shape[1])
    if k in ('dict', 'mapping'):
        return f'a {k} of (' + ', '.join(say(a) + ': ' + say(b) for a, b in shape[1]) + ')'
    return f'a {k} of (' + ', '.join(map(say, shape[1])) + ')'


T = typing
LIT = T.Literal[1, 'a', None]


def supported(depth):
    leaf = [A, T.Any]
    if depth == 0:
        return leaf
    low = supported(depth - 1)
    out = list(leaf) + [LIT, T.Literal['x']]
    for x in low:
        out += [T.List[x], list[x], T.Sequence[x], T.Tuple[x, ...], T.Tuple[x, B], T.Dict[B, x], T.Mapping[B, x], T.Optional[x]]
        if view(x)[0] != 'any':
            out += [T.Union[x, B]]
        if hashable(x):
            out += [T.Set[x], T.Dict[x, B], T.Mapping[x, B], T.Tuple[B, x]]
    return uniq(out)


def hashable(tp):
    k, a = view(tp)
    if k in ('list', 'set', 'dict', 'mapping', 'typeddict', 'sequence'):
        return False
    return all(hashable(x) for x in a) if k in ('tuple', 'tuple*', 'union') else True


BARE = [T.List, T.Set, T.Dict, T.Tuple, T.Mapping, T.Sequence, list, set, dict, tuple, T.Tuple[()], tuple[()], A | B, A | None,
        dict[A, B], set[A], tuple[A, ...], tuple[A, B, D], T.Tuple[A], T.Union[A, B, D], T.Union[T.List[A], T.Dict[A, B]],
        collections.abc.Sequence[A], collections.abc.Mapping[A, B], T.Required[A], T.NotRequired[T.List[A]], T.Literal[1, 2],
        T.Union[A, B, D, None], T.Union[T.List[A], B, D, T.Dict[A, B], None], T.Literal[1, 'a', None, b'x', True, 7],
        T.Tuple[A, B, D, A], T.Tuple[T.List[A], B, A, D, B], T.List[T.Union[A, B, D, None]],
        T.List[A | None], T.Sequence[T.Tuple[A, B]]]


def jobs_t04(tier):
    return [Job(Validate, dict(tp=t), t04, weight=1) for t in uniq(BARE + supported(2 if tier == 'quick' else 3))] + \
        [Job(Again, dict(tp=t), t04, weight=1) for t in uniq(BARE + supported(1 if tier == 'quick' else 2))] + \
        [Job(Again, dict(tp=A, twin=True), t04, weight=1)]


def jobs_t06(tier):
    return [Job(Validate, dict(tp=t), t04, weight=3) for t in
            list(DECLARED) + [T.List[Total], T.Union[Total, A], T.Dict[A, Partial], T.Optional[Partial]] +
            ([f(x) for x in list(DECLARED) for f in (lambda x: T.List[x], lambda x: T.Optional[x], lambda x: T.Dict[A, x],
                                                     lambda x: T.Tuple[A, x], lambda x: T.Sequence[x])]
             if tier == 'thorough' else [])] + \
        [Job(Again, dict(tp=t), t04, weight=3) for t in list(DECLARED) + [T.List[Total]]] + \
        [Job(Again, dict(tp=t, twin=True), t04, weight=3) for t in (Total, StdPartial)]


# ------------------------------------------------------------------ expressions the library does not know
class Proto(T.Protocol):
    def method(self): ...


class Gen(T.Generic[T.TypeVar('X')]):
    pass


TV = T.TypeVar('TV')
UNSUPPORTED = [TV, T.NewType('NT', A), 'A', T.ForwardRef('A'), T.Callable[[A], B], T.Callable, T.Type[A], T.FrozenSet[A],
               T.Annotated[A, 'note'], T.Annotated[A, ['unhashable']], T.ClassVar[A], T.Deque[A], collections.deque[A],
               T.Iterable[A], collections.abc.Iterable[A], T.MutableMapping[A, B], collections.abc.MutableSequence[A], Gen[A],
               Proto, T.Final[A], T.NoReturn, T.Self, T.LiteralString, T.ParamSpec('PS'), T.DefaultDict[A, B],
               T.AbstractSet[A], 12, None, ..., [A], {'x': A}]


class Once(Validate):
    """The same type met a second time, the warnings switched on or off."""
    op = 'validate-again'

    def run(self, st):
        tp = self.p['tp']
        self.it.ctx = (('first',),)
        value = Values(self, st).sym()
        n = len(self.ends)
        for s, v in self.ask(st, value, tp):
            if is_raise(v):
                self.finish([(s, v)])
                continue
            s.ev = ()
            self.it.ctx = (('second',),)
            self.finish(self.ask(s, value, tp))
        for e in self.ends[n:]:
            e.value, e.shape = value, SYM


class OffOn(Validate):
    """Met first while the warnings are switched off, then while they are on."""
    op = 'validate-off-on'

    def run(self, st):
        tp = self.p['tp']
        w = self.w
        switch, w.warn = w.warn, C(False)
        self.it.ctx = (('first',),)
        value = Values(self, st).sym()
        n = len(self.ends)
        for s, v in self.ask(st, value, tp):
            if is_raise(v):
                self.finish([(s, v)])
                continue
            s.ev = ()
            self.it.ctx = (('second',),)
            w.warn = C(True)
            self.finish(self.ask(s, value, tp))
            w.warn = C(False)
        w.warn = switch
        for e in self.ends[n:]:
            e.value, e.shape = value, SYM


def t05(R, sc):
    tp = sc.p['tp']
    for e in sc.ends:
        if not R.need(e.kind in ('ok', 'TypeValidationError'), sc, e, 'no-crash',
                      f'validating {say(e.shape)} against {name(tp)} ends with {e.kind}'):
            continue
        b = Conform(sc.w, e.st)(e.value, tp)
        R.need(b is not True or e.kind == 'ok', sc, e, 'unsupported-accepted', f'{name(tp)} rejects {say(e.shape)}')
        on = e.st.facts.get(('truthy', sc.w.warn))
        warned = any(x[0] == 'warn' for x in list(e.st.ev) + list(e.st.wev))
        if sc.op == 'validate-off-on':
            R.need(warned or not met(tp, e.shape), sc, e, 'warning-first',
                   f'no warning the first time {name(tp)} is met with the warnings on')
            continue
        if warned:
            R.need(on is True, sc, e, 'warning-off', 'a warning is issued although these warnings may be switched off')
        if sc.op == 'validate' and met(tp, e.shape):
            R.need(warned or on is False, sc, e, 'warning-first', f'no warning the first time {name(tp)} is met')


def met(tp, shape):
    """Does validating a value of this shape certainly meet an unsupported type?"""
    k, a = view(tp)
    if k == 'unsupported':
        return True
    if k == 'list' and shape[0] == 'list' or k == 'set' and shape[0] == 'set' or k == 'tuple*' and shape[0] == 'tuple':
        return bool(shape[1]) and met(a[0], shape[1][0])
    if k == 'wrap':
        return met(a[0], shape)
    return False


class Keys(Direct):
    """validate_types({k*: A, ...}, {k*: ..., u*: ..., ...}, flags)"""
    op = 'validate-keys'
    world = TyWorld
    fname = Validate.fname

    def run(self, st):
        for have in (True, False):
            for extra in (True, False):
                s = st.copy()
                self.it.ctx = (('case', have, extra),)
                vs = Values(self, s)
                v, x = vs.sym(), vs.sym()
                strong = ([(K, v)] if have else []) + ([(U, x)] if extra else [])
                if self.p.get('swap'):
                    strong = strong[::-1]
                others, more = None, None
                if self.p.get('others'):
                    others, more = (S('expected', 'dict'), 'key', 'leafclass'), (S('supplied', 'dict'), 'key', 'any')
                ref = lambda o, t: self.it.alloc(s, o, NODE, t)
                flags = frozenset({'excl'})
                kind = MAPPING if self.p.get('proxy') else None
                ts = ref(Obj('dict', kind, strong=((K, H(A)),), others=others, flags=flags, removed=frozenset({U})), 'types')
                vals = ref(Obj('dict', kind, strong=tuple(strong), others=more, flags=flags,
                               removed=frozenset(x for x in (K, U) if x not in dict(strong))), 'values')
                for b in ('expected', 'supplied'):
                    for k in (K, U):
                        s.facts[('in', k, S(b, 'dict'))] = False
                s.facts[('eq', K, U)] = s.facts[('eq', U, K)] = False
                self.w.given |= {ts, vals}
                s.pins = s.pins + (ts, vals, v, x)
                before = {r: s.heap[r[1]] for r in (ts, vals)}
                n = len(self.ends)
                kw = {}
                for f in ('ignore_extra', 'ignore_missing'):
                    if self.p.get('flags', True):
                        kw[f] = S(f, 'bool')
                self.finish(self.it.call(s, self.fname(), (ts, vals), kw, NODE))
                for e in self.ends[n:]:
                    e.have, e.extra, e.value = have, extra, v
                    e.same = all(e.st.heap.get(r[1]) is not None and (e.st.heap[r[1]].strong, e.st.heap[r[1]].weak,
                                                                      e.st.heap[r[1]].others) ==
                                 (o.strong, o.weak, o.others) for r, o in before.items())


def flag(e, sc, n):
    if not sc.p.get('flags', True):
        return False
    return e.st.facts.get(('truthy', S(n, 'bool')))


def t07(R, sc):
    for e in sc.ends:
        R.need(e.same, sc, e, 'unmodified', 'a mapping given is modified')
        if not R.need(e.kind in ('ok', 'TypeValidationError'), sc, e, 'ends', f'ends with {e.kind}'):
            continue
        listed, messages, o = set(), True, None
        if e.kind == 'TypeValidationError':
            o = reported(e)
            if not R.need(o is not None and o.kind == 'dict', sc, e, 'errors', 'the error carries no errors'):
                continue
            listed = {k for k, _ in o.strong}
            messages = all(messages_of(e, m) for _, m in o.strong)
            R.need(o.strong or o.weak or o.ne is True, sc, e, 'raised-only-if', 'the error lists no key')
        R.need(messages, sc, e, 'message', 'a key is listed without a message')
        ig_extra, ig_missing = flag(e, sc, 'ignore_extra'), flag(e, sc, 'ignore_missing')
        if e.have:
            b = Conform(sc.w, e.st)(e.value, A)
            R.need(b is not None and (K in listed) is (not b), sc, e, 'value-listed', 'a key whose value does {} is {}'.format(
                'conform' if b else 'not conform' if b is False else 'or does not conform', 'listed' if K in listed else 'not listed'))
        else:
            R.need(ig_missing is not None and (K in listed) is (not ig_missing), sc, e, 'missing-listed',
                   'a missing key is {}listed'.format('' if K in listed else 'not '))
        if e.extra:
            R.need(ig_extra is not None and (U in listed) is (not ig_extra), sc, e, 'extra-listed',
                   'an unexpected key is {}listed'.format('' if U in listed else 'not '))
        else:
            R.need(U not in listed, sc, e, 'extra-listed', 'a key that was not supplied is listed')
        if not sc.p.get('others'):
            R.need(listed <= {K, U} and (o is None or not o.weak and not o.others), sc, e, 'no-other', 'another key is listed')
    for at, what, s in sc.w.mutations:
        R.need(False, sc, s.path(), 'unmodified', f'{at}: a mapping given is modified')


def jobs_t05(tier):
    nested = [f(x) for x in (TV, T.Callable[[A], B], T.Annotated[A, ['unhashable']], T.NewType('NT', A)) for f in (
        lambda x: T.List[x], lambda x: T.Dict[A, x], lambda x: T.Tuple[A, x], lambda x: T.Tuple[x, ...], lambda x: T.Union[A, x],
        lambda x: T.Required[x], lambda x: T.Sequence[x])]
    return [Job(Validate, dict(tp=t), t05, weight=1) for t in UNSUPPORTED + nested] + \
        [Job(c, dict(tp=t), t05, weight=1) for t in UNSUPPORTED for c in (Once, OffOn)]


def jobs_t07(tier):
    return [Job(Keys, dict(k), t07, weight=1) for k in (
        dict(), dict(swap=True), dict(flags=False), dict(proxy=True), dict(others=True), dict(others=True, swap=True))]


VALS = ['the classes in a type expression are arbitrary: a value is or is not an instance of them',
        'type expressions are enumerated up to the nesting depth stated in DESIGN.md; the values are symbolic']
TABLE = {
    'T04': dict(jobs=jobs_t04, explain='Every path of validating values of every kind against each type expression; '
                'acceptance is compared with what the path has established of the value.', floor=60, assume=VALS, mods=[t04]),
    'T05': dict(jobs=jobs_t05, explain='Every path of validating values against type expressions the library has no handling '
                'for, alone and inside supported ones, met once and twice.', floor=60, assume=VALS + [
                    'warnings are not turned into errors'], mods=[t05]),
    'T07': dict(jobs=jobs_t07, explain='Every path of validate_types for an expected key, an unexpected key and any number of '
                'others, the flags being any.', floor=20, assume=VALS, mods=[t07]),
    'T06': dict(jobs=jobs_t06, explain='Every path of validating values against typed dictionaries with required, not required '
                'and inherited keys present, absent or undeclared.', floor=10, assume=VALS, mods=[t04]),
}
