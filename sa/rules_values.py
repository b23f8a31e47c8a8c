"""Rules about the built-in field types: what they accept, store, dump and report."""
from .engine import C, H, NONE, TRUE, FALSE, Obj, S, is_raise
from .ops import FMT, KS, NODE, OpWorld, POST, PRE, Setup, V0, VS, mentions
from .scen import Assign, Construct, Dump, End, Update
from .repo import AnalysisBroken
import collections.abc
from .rules_ops import COMMON, F_NONE, HARD, code, is_v, noneness, show

TVS, FVS = S('tv*', 'seq'), S('fv*', 'seq')          # true_values / false_values arguments
TCS, FCS = S('TV*', 'seq'), S('FV*', 'seq')          # class attributes of a user subclass


class ValueWorld(OpWorld):
    """Built-in deserializers; the value is anything and its conversions may raise anything."""
    stored = VS

    def outcomes(self, it, st, what, args, node):
        if what == 'preprocess':
            return [('ret', args[0] if self.setup else self.data2)]
        if what == 'format':
            return [('ret', S(('fmt-str', args[0] if args else C('?')), 'str'))]
        return [('ret', NONE)]

    def conv_raises(self, it, st, fn, v):
        if v == VS and not self.setup and fn in ('str', 'int', 'float', 'bool', 'bytes'):
            return ('ValueError', 'TypeError', 'Other')
        return False

    def converted(self, it, st, name, args, node):
        if len(args) == 1 and args[0] == VS and name in ('str', 'int', 'float'):
            it.event(st, ('u', 'conv', C(name)) + (C('-'),) * 10)
            return S(('conv', name), name)
        return None


ERR1, ERR2 = S('message1*', 'str'), S('message2*', 'str')


class TypeWorld(ValueWorld):
    """What the type validation says of a value is open; its reasons are two messages."""

    def call(self, it, st, fv, args, kwargs, node):
        f = fv[1] if fv[0] == 'bm' else fv
        if f[0] == 'fn' and it.repo.funcs[f[1]].mod.name.endswith('.type_validation'):
            given = [a for a in args if a != fv[-1]] + list(kwargs.values())
            tp = [a for a in given if is_type(a)]
            if self.setup and V0 in given and len(tp) == 1:
                return [(st, ('t', (TRUE, it.alloc(st, Obj('list'), node, 'errs'))))]
            if VS in given and len(tp) == 1:
                out = []
                for b in (True, False):
                    s = st.copy()
                    it.event(s, ('u', 'conforms', C(b), tp[0]) + (C('-'),) * 8)
                    errs = it.alloc(s, Obj('list', strong=() if b else (ERR1, ERR2)), node, ('errs', b))
                    s.note(f'{it.loc(node)}: the value {"conforms" if b else "does not conform"}')
                    out.append((s, ('t', (C(b), errs))))
                return out
        return super().call(it, st, fv, args, kwargs, node)

    def user(self, it, st, what, args, kwargs, node):
        if what == 'format' and not self.setup:
            c = args[1] if len(args) > 1 else kwargs.get('context', NONE)
            with_ = False
            for s, m in it.get_attr(st.copy(), c, 'metadata', NODE):
                if m[0] == 'r' and m[1] in s.heap and s.heap[m[1]].kind == 'dict':
                    for s2, r in it.dict_get(s, m, C('type_validation_fail_errors')):
                        v = r[1] if r[0] == 'hit' else NONE
                        o = s2.heap.get(v[1]) if v[0] == 'r' else None
                        with_ = o is not None and o.kind == 'list' and o.strong == (ERR1, ERR2)
            it.event(st, ('u', 'metadata', C(with_)) + (C('-'),) * 9)
        return super().user(it, st, what, args, kwargs, node)


def is_type(v):
    return v[0] == 's' and (v[1][0] == 'generic' or v[2] == 'type')


class ValueSetup(Setup):
    OLD = V0

    def __init__(self, repo, spec, **kw):
        self.spec = spec
        super().__init__(repo, world=spec.world, **kw)

    def field_class(self, st):
        sp = self.spec
        self.base = ('cls', self.repo.require_class('oblate.fields.' + sp.mod, sp.cls))
        members = {'__name__': C('User' + sp.cls)}
        if sp.fmt:
            members['format_error'] = FMT
        members.update(sp.members(self.it, st))
        return self.it.alloc(st, Obj('class', None, members, strong=(self.base,)), NODE, 'fieldclass')

    def make_field(self, st, kw):
        args, more = self.spec.args(self.it, st)
        return self.it.call(st, self.ufield, args, dict(kw, **more), NODE)

    def stored_ok(self, s):
        return not any(k[0] == 'isnone' and k[1] == V0 and b for k, b in s.facts.items()) and \
            any(o.kind == 'dict' and any(k == self.name_key and x == V0 for k, x in o.strong) for o in s.heap.values())

    def mapping(self, st, entries, base='data', others=True, tag='dmap'):
        """The data given is a plain dictionary."""
        return self.it.alloc(st, Obj('dict', strong=tuple(entries)), NODE, tag)

    @property
    def name_key(self):
        from .ops import NS
        return NS


class Spec:
    """A built-in field under analysis."""
    world = ValueWorld

    def __init__(self, mod, cls, args=(), kw=None, members=None, fmt=True):
        self.mod, self.cls, self.a, self.k, self.m, self.fmt = mod, cls, args, kw or {}, members or {}, fmt

    def args(self, it, st):
        return tuple(self.a), dict(self.k)

    def members(self, it, st):
        return dict(self.m)


class _Value:
    def __init__(self, repo, spec, **kw):
        self.spec = spec
        kw.setdefault('solo', True)
        super().__init__(repo, **kw)

    def setup(self):
        return ValueSetup(self.repo, self.spec, default=self.default, ambient=self.ambient, solo=self.solo,
                          required=self.required(), inherited=bool(self.p.get('inherited')))

    def name(self):
        s = self.spec
        return f'{s.cls}{s.label}: ' + super().name()


class Load(_Value, Construct):
    op = 'load'

    @classmethod
    def weight(cls, kw):
        return 2


class LoadUpdate(_Value, Update):
    op = 'load-update'

    @classmethod
    def weight(cls, kw):
        return 2


class LoadAssign(_Value, Assign):
    op = 'load-assign'

    @classmethod
    def weight(cls, kw):
        return 2


LOADS = (Load, LoadUpdate, LoadAssign)


class DumpValue(_Value, Dump):
    op = 'dump-value'

    @classmethod
    def weight(cls, kw):
        return 2


class P(Spec):
    """A primitive field."""
    HOST = {'String': str, 'Integer': int, 'Float': float, 'Boolean': bool}

    def __init__(self, cls, strict=None, pos=False, **kw):
        members = kw.pop('members', None)
        k = dict(kw)
        a = ()
        if strict is not None:
            k['strict'] = C(strict)
        super().__init__('primitive', cls, a, k, members)
        self.strict = strict is not False
        self.host = H(self.HOST[cls])
        self.label = f'(strict={strict}{"".join(", " + x for x in sorted(list(kw) + list(members or ())))})'

    def __repr__(self):
        return self.cls + self.label


def kind_of(sc, e, v, cv):
    """Is v an instance of cv on this path (None: never examined)?"""
    r = {b for _, b in sc.it.isinstance_(e.st.copy(), v, cv)}
    return r.pop() if len(r) == 1 else None


def rejected_with(R, sc, e, c, rule, what):
    """The error is the one the format hook gave for code c, and nothing else."""
    ev = [x for x in e.events('format') if x[4] == c]
    ok = R.need(bool(ev), sc, e, rule, f'{what} is not rejected with {show(c)}')
    if not ok:
        return
    errs, weak = e.errors()
    msgs = [x[2] for x in errs or ()]
    R.need(not weak and msgs == [S(('fmt-str', c), 'str')], sc, e, rule,
           f'the error reported for {what} is {show(set(msgs))}')


def messages(e):
    """All messages of the error, lists expanded; None when not known."""
    errs, weak = e.errors()
    if errs is None or weak:
        return None
    out = []
    for x in errs:
        m = x[2]
        o = e.st.heap.get(m[1]) if m is not None and m[0] == 'r' else None
        if o is not None and o.kind in ('list', 'set'):
            if not o.exact():
                return None
            out.extend(o.strong)
        else:
            out.extend(m[1] if m[0] == 't' else [m])
    return out


def primitive_end(R, sc, e):
    sp = sc.spec
    if e.kind == 'FrozenError':
        return
    inst = kind_of(sc, e, VS, sp.host)
    none = noneness(e) is True
    tag = 'exact-type' if sp.strict else 'lenient'
    if e.kind == 'ok':
        val = e.value()
        if none and e.truth(F_NONE) is True:
            return
        if inst is True:
            R.need(val == {VS}, sc, e, tag, f'a value of the right type is stored as {show(val)}')
            return
        if sp.strict:
            R.need(False, sc, e, tag, f'completes with a value not known to be {sp.host[1].obj.__name__}')
            return
        R.need(inst is False, sc, e, tag, 'converts a value whose type was not examined')
        if sp.cls != 'Boolean':
            want = S(('conv', sp.host[1].obj.__name__), sp.host[1].obj.__name__)
            R.need(val == {want}, sc, e, tag, f'stores {show(val)} instead of the converted value')
            return
        bool_value(R, sc, e, val)
    elif e.kind in HARD:
        if none and e.truth(F_NONE) is not True:
            return
        if inst is True:
            R.need(False, sc, e, tag, 'a value of the right type is rejected')
        elif sp.strict:
            R.need(inst is False, sc, e, tag, 'rejects a value whose type was not examined')
            rejected_with(R, sc, e, code(sc, e, 'ERR_INVALID_DATATYPE'), tag, 'a value of another type')
        else:
            R.need(inst is False, sc, e, tag, 'rejects a value whose type was not examined')
            conv = e.events('conv')
            if conv:
                cs = S(('conv', 'str'), 'str')
                t, f = among(sc, e, cs, True), among(sc, e, cs, False)
                R.need(sp.cls == 'Boolean' and t is False and f is False, sc, e, tag,
                       'a value that can be converted is rejected')
            rejected_with(R, sc, e, code(sc, e, 'ERR_COERCION_FAILED'), tag, 'a value that cannot be converted')
    elif not quits(sc, e):
        R.need(False, sc, e, tag, f'ends with {e.kind}')


def quits(sc, e):
    """Ends with an exception that is no error (KeyboardInterrupt and the like)."""
    return e.kind == 'Other' and kind_of(sc, e, e.exc, H(Exception)) is False


def among(sc, e, s, truth):
    """Is the string form among the true (false) values (None: not known)?"""
    want = sc.spec.want[0 if truth else 1]
    if want[0] == 's':
        return e.st.facts.get(('in', s, want))
    r = {b for _, b in sc.it.in_(e.st.copy(), s, want)}
    return r.pop() if len(r) == 1 else None


def bool_value(R, sc, e, val):
    cs = S(('conv', 'str'), 'str')
    t, f = among(sc, e, cs, True), among(sc, e, cs, False)
    if val == {TRUE}:
        R.need(t is True, sc, e, 'lenient', 'True for a value not known to be among the true values')
    elif val == {FALSE}:
        R.need(f is True and t is not True, sc, e, 'lenient', 'False for a value not known to be among the false values')
    else:
        R.need(False, sc, e, 'lenient', f'a boolean field stores {show(val)}')


def t01(R, sc):
    for e in sc.ends:
        if sc.op != 'dump-value':
            primitive_end(R, sc, e)
        else:
            dumped_same(R, sc, e)


def dumped_same(R, sc, e):
    from .ops import DS
    if not R.need(e.kind == 'ok' and e.val[0] == 'r' and e.val[1] in e.st.heap, sc, e, 'dumped-same', f'dumping ends with {e.kind}'):
        return
    o = e.st.heap[e.val[1]]
    R.need(o.kind == 'dict' and o.strong == ((DS, V0),) and o.exact(), sc, e, 'dumped-same',
           'the stored value is dumped as ' + show(set(v for _, v in o.strong)))


def bools():
    """The boolean field, its values from the documented places."""
    yield P('Boolean', False), None
    yield P('Boolean', False, true_values=TVS), 0
    yield P('Boolean', False, false_values=FVS), 1
    yield P('Boolean', False, true_values=TVS, false_values=FVS), 2
    yield P('Boolean', False, members={'TRUE_VALUES': TCS, 'FALSE_VALUES': FCS}), 3
    yield P('Boolean', False, members={'TRUE_VALUES': TCS, 'FALSE_VALUES': FCS}, true_values=TVS, false_values=FVS), 2


def lenient():
    out = [P(c, False) for c in ('String', 'Integer', 'Float')]
    for p, how in bools():
        p.how = how
        out.append(p)
    return out


class _Bool:
    """The boolean field, whose true and false values are read from where the declaration puts them."""

    def run(self, st, f, cls):
        base = self.su.base

        def const(name):
            r = self.it.get_attr(st.copy(), base, name, NODE)
            if len(r) != 1 or is_raise(r[0][1]) or r[0][1][0] not in 'tr':
                raise AnalysisBroken(f'Boolean.{name} is not a constant collection')
            return r[0][1]
        how = getattr(self.spec, 'how', None)
        w = [const('TRUE_VALUES'), const('FALSE_VALUES')]
        if how in (0, 2):
            w[0] = TVS
        if how in (1, 2):
            w[1] = FVS
        if how == 3:
            w = [TCS, FCS]
        self.spec.want = w
        super().run(st, f, cls)


class LoadBool(_Bool, Load):
    pass


class LoadBoolAssign(_Bool, LoadAssign):
    pass


def _job(cls, spec, rule, **kw):
    from .registry import Job
    return Job(cls, dict(spec=spec, **kw), rule)


def jobs_t01(tier):
    out = []
    for c in P.HOST:
        out += [_job(L, P(c), t01) for L in LOADS]
        out.append(_job(Load, P(c, True), t01))
        out.append(_job(DumpValue, P(c), t01, sel=''))
        out.append(_job(DumpValue, P(c, False), t01, sel=''))
    return out


def jobs_t02(tier):
    out = []
    for p in lenient():
        out += [_job(L, p, t01) for L in ((LoadBool, LoadBoolAssign) if p.cls == 'Boolean' else LOADS)]
    return out


# ----------------------------------------------------------------------- T03
A, B, KT, VT, TD, EX = (S(x, 'type') for x in ('A*', 'B*', 'K*', 'V*', 'TD*', 'E*'))


class T(Spec):
    """A field checked against a type."""
    world = TypeWorld

    def __init__(self, mod, cls, args, host=None, origins=(), fmt=True):
        super().__init__(mod, cls, args, {}, {}, fmt)
        self.host = None if host is None else H(host)
        self.origins = origins
        self.label = f'({", ".join(a[1][0].strip("*") for a in args)}{"" if fmt else "; default messages"})'
        self.err = 'ERR_INVALID_VALUE' if cls in ('Literal', 'Union') else 'ERR_TYPE_VALIDATION_FAILED'

    def __repr__(self):
        return self.cls + self.label

    def right_type(self, t):
        if not self.origins:
            return t == self.a[0]
        if t[1][0] != 'generic' or t[1][1][0] != 'H' or t[1][1][1].obj not in self.origins:
            return False
        k = t[1][2]
        return k == ('t', tuple(self.a)) or len(self.a) == 1 and k == self.a[0]


def t03(R, sc):
    sp = sc.spec
    for e in sc.ends:
        if sc.op == 'dump-value':
            dumped_same(R, sc, e)
            continue
        if e.kind == 'FrozenError':
            continue
        none = noneness(e) is True
        kind = True if sp.host is None else kind_of(sc, e, VS, sp.host)
        conf = e.events('conforms')
        for x in conf:
            R.need(sp.right_type(x[3]), sc, e, 'declared-type', 'the value is checked against ' + show(x[3]))
        ok = [x for x in conf if x[2] == TRUE]
        bad = [x for x in conf if x[2] == FALSE]
        if e.kind == 'ok':
            if none and e.truth(F_NONE) is True:
                continue
            R.need(kind is True, sc, e, 'container-kind', 'accepts a value of another container kind')
            if sp.a:
                R.need(ok and not bad, sc, e, 'conforms', 'accepts a value not known to conform to the declared type')
            R.need(e.value() == {VS}, sc, e, 'same-object', f'stores {show(e.value())} instead of the given value')
        elif e.kind in HARD:
            if none and e.truth(F_NONE) is not True:
                continue
            if kind is False:
                c, what = code(sc, e, 'ERR_INVALID_DATATYPE'), 'a value of another kind'
            elif R.need(kind is True and bad, sc, e, 'rejected-for-cause', 'a value that conforms is rejected'):
                c, what = code(sc, e, sp.err), 'a value that does not conform'
                if sp.fmt:
                    R.need(bool([x for x in e.events('metadata') if x[2] == TRUE]), sc, e, 'carries-messages',
                           'the error context lacks the messages of the type validation')
                else:
                    R.need(messages(e) == [ERR1, ERR2], sc, e, 'carries-messages',
                           'the error does not carry the messages of the type validation: ' + show(set(messages(e) or ())))
                    continue
            else:
                continue
            if sp.fmt:
                rejected_with(R, sc, e, c, 'own-error', what)
        elif not quits(sc, e):
            R.need(False, sc, e, 'ends-definitely', f'ends with {e.kind}')


def tspecs():
    import collections.abc
    import typing
    MAPS = (typing.Dict, dict, typing.Mapping, collections.abc.Mapping)
    LISTS = (typing.List, list, typing.Sequence, collections.abc.Sequence)
    SETS = (typing.Set, set)
    for fmt in (True, False):
        yield T('structs', 'Dict', (KT, VT), dict, MAPS, fmt)
        yield T('structs', 'TypedDict', (TD,), dict, (), fmt)
        yield T('structs', 'List', (A,), list, LISTS, fmt)
        yield T('structs', 'Set', (A,), set, SETS, fmt)
        yield T('typings', 'Literal', (A, B), None, (typing.Literal,), fmt)
        yield T('typings', 'Union', (A, B), None, (typing.Union,), fmt)
        yield T('typings', 'TypeExpr', (EX,), None, (), fmt)
    yield T('structs', 'Dict', (), dict)
    yield T('structs', 'List', (), list)
    yield T('structs', 'Set', (), set)
    yield T('typings', 'Any', ())


def jobs_t03(tier):
    out = []
    for sp in tspecs():
        out += [_job(L, sp, t03) for L in (LOADS if sp.fmt else (Load,))]
        if sp.fmt:
            out.append(_job(DumpValue, sp, t03, sel=''))
    return out


# ----------------------------------------------------------------------- N01
SC, NEW, NDUMP, STATE = S('SC*', 'class'), S('NEW*', 'plain'), S('NDUMP*', 'plain'), S('state*', 'plain')
Q1, Q2 = S('q1*', 'key'), S('q2*', 'key')
M1, M2, M3 = (S(f'nested{i}*', 'str') for i in (1, 2, 3))


class NestWorld(ValueWorld):
    """The nested schema class is any; creating and dumping its instances may fail in every way."""
    focus = ValueWorld.focus | {Q1, Q2}

    def decide_issub(self, it, st, a, b):
        if a == SC:
            return b in (SC, self.schema_cls, H(object))
        return super().decide_issub(it, st, a, b)

    def decide_isinstance(self, it, st, v, cv):
        o = st.heap.get(v[1]) if v[0] == 'r' else None
        if o is not None and o.kind == 'inst' and o.cls == ('other',) and cv == self.ve_cls:
            return False
        return super().decide_isinstance(it, st, v, cv)

    def nested_error(self, it, st, node):
        """A validation error of the nested schema: two messages under one key, one under another."""
        key = [r for nm, r in self.cvars if 'key' in nm]
        if len(key) != 1:
            raise AnalysisBroken('no context variable for the current key')
        fes, old, saved = [], st.cv.get(key[0]), self.setup
        self.setup = True
        for k, m in ((Q1, M1), (Q2, M3), (Q1, M2)):
            st.cv[key[0]] = k
            it.ctx = it.ctx + (('nested', m),)
            (st, fe), = it.call(st, self.fe_cls, (m,), {}, NODE)
            it.ctx = it.ctx[:-1]
            fes.append(fe)
        if old is None:
            st.cv.pop(key[0], None)
        else:
            st.cv[key[0]] = old
        lst = it.alloc(st, Obj('list', strong=tuple(fes)), node, 'nested errors')
        r = it.call(st, self.ve_cls, (lst,), {}, NODE)
        self.setup = saved
        return r

    def nested(self, it, st, what, ret, args, kwargs, node):
        def event(s, outcome):
            a = args[0] if args else C('-')
            it.event(s, ('u', what, C(outcome), a, ('t', tuple(sorted(((C(k), v) for k, v in kwargs.items()), key=repr))),
                         C(len(args))) + (C('-'),) * 6)
        out = []
        s = st.copy()
        event(s, 'ret')
        s.note(f'{it.loc(node)}: the nested schema {what} succeeds')
        out.append((s, ret))
        s = st.copy()
        event(s, 'VE')
        s.note(f'{it.loc(node)}: the nested schema {what} fails')
        for s2, v in self.nested_error(it, s, node):
            out.append((s2, v if is_raise(v) else ('!', v)))
        s = st.copy()
        event(s, 'Other')
        out.extend(it.user_raise(s, 'Other', node, what))
        return out

    def opaque_call(self, it, st, fv, args, kwargs, node):
        if fv == SC:
            if self.setup:
                return [(st, V0)]
            return self.nested(it, st, 'create', NEW, args, kwargs, node)
        if fv[0] == 'hm' and fv[1] == V0 and not self.setup and fv[2] == 'dump':
            return self.nested(it, st, 'dump', NDUMP, args, kwargs, node)
        return super().opaque_call(it, st, fv, args, kwargs, node)

    def attr(self, it, st, v, name, node):
        if v == SC and name in ('__name__', '__qualname__'):
            return [(st, S(('nameof', SC), 'str'))]
        if v == V0 and name == 'dump':
            return [(st, ('hm', V0, 'dump'))]
        return super().attr(it, st, v, name, node)


class N(Spec):
    world = NestWorld

    def __init__(self, kwargs, fmt=True):
        super().__init__('nesting', 'Object', (SC,), {}, {}, fmt)
        self.kwargs = kwargs
        self.host = SC
        self.label = '(SC' + (', init_kwargs' if kwargs else '') + ')'

    def __repr__(self):
        return self.cls + self.label

    def args(self, it, st):
        it.world.cvars = []
        for m in it.repo.modules.values():
            for nm, e in m.defs.items():
                if e[0] == 'expr' and nm.startswith('current_'):
                    (_, ref), = it.global_value(st, m.name, nm, NODE)
                    it.world.cvars.append((nm, ref))
        k = {}
        if self.kwargs:
            k['init_kwargs'] = it.alloc(st, Obj('dict', strong=((C('state'), STATE),)), NODE, 'init_kwargs')
        return tuple(self.a), k


def structure(e, v):
    """A nested structure as {key: (messages,)}."""
    st = e.st
    o = st.heap.get(v[1]) if v is not None and v[0] == 'r' else None
    if o is None or o.kind != 'dict' or not o.exact():
        return None
    out = {}
    for k, x in o.strong:
        l = st.heap.get(x[1]) if x[0] == 'r' else None
        if l is None or l.kind != 'list' or not l.exact():
            return None
        out[k] = [m if m[0] != 'r' else e.read(m, 'message') for m in l.strong]
    return out


NESTED = {Q1: [M1, M2], Q2: [M3]}


def nested_reported(R, sc, e, rule):
    errs, weak = e.errors()
    ok = errs is not None and not weak and len(errs) == 1 and structure(e, errs[0][2]) == NESTED
    R.need(ok, sc, e, rule, 'the errors of the nested schema are not all reported in their structure')


def n01(R, sc):
    sp = sc.spec
    for e in sc.ends:
        if e.kind == 'FrozenError':
            continue
        if sc.op == 'dump-value':
            nested_dump(R, sc, e)
            continue
        none = noneness(e) is True
        inst = kind_of(sc, e, VS, SC)
        mp = kind_of(sc, e, VS, H(collections.abc.Mapping))
        ev = e.events('create')
        for x in ev:
            want = ('t', ((C('state'), STATE),) if sp.kwargs else ())
            R.need(is_v(e, x[3]) and x[5] == C(1) and x[4] == want, sc, e, 'init-arguments',
                   'the nested schema is not created from the value and the declared arguments')
            R.need(mp is True and inst is False, sc, e, 'mapping-only', 'a nested schema is created from what is no mapping')
        failed = [x for x in ev if x[2] == C('VE')]
        if e.kind == 'ok':
            if none and e.truth(F_NONE) is True:
                continue
            val = e.value()
            if inst is True:
                R.need(val == {VS}, sc, e, 'instance-as-is', f'an instance is stored as {show(val)}')
            else:
                R.need(len(ev) == 1 and not failed and val == {NEW}, sc, e, 'new-instance',
                       f'a mapping is stored as {show(val)}')
        elif e.kind in HARD:
            if none and e.truth(F_NONE) is not True:
                continue
            if failed:
                nested_reported(R, sc, e, 'nested-errors')
            else:
                R.need(inst is False and mp is False, sc, e, 'other-rejected', 'an instance or a mapping is rejected')
                rejected_with(R, sc, e, code(sc, e, 'ERR_INVALID_DATATYPE'), 'other-rejected', 'what is no mapping')
        else:
            R.need(e.kind == 'Other' and any(x[2] == C('Other') for x in ev), sc, e, 'ends-definitely', f'ends with {e.kind}')


def nested_dump(R, sc, e):
    from .ops import DS
    ev = e.events('dump')
    none = e.isnone(V0)
    if e.kind == 'ok':
        o = e.st.heap.get(e.val[1]) if e.val[0] == 'r' else None
        want = NONE if none is True else NDUMP
        ok = o is not None and o.kind == 'dict' and o.exact() and len(o.strong) == 1 and o.strong[0][0] == DS and \
            (o.strong[0][1] == want or none is True and o.strong[0][1] == V0)
        R.need(ok and (none is True or len(ev) == 1), sc, e, 'dump-nested',
               'the nested schema is dumped as ' + show(set(v for _, v in o.strong) if o else C('?')))
    elif e.kind in HARD:
        if R.need(any(x[2] == C('VE') for x in ev), sc, e, 'dump-nested', 'dumping fails although the nested schema did not'):
            nested_reported(R, sc, e, 'nested-errors')
    else:
        R.need(e.kind == 'Other' and any(x[2] == C('Other') for x in ev), sc, e, 'dump-nested', f'dumping ends with {e.kind}')


class DumpNone(DumpValue):
    """None is stored, or anything but None."""

    def operate(self, st, f, cls, inst):
        for b in (True, False):
            s = st.copy()
            s.facts[('isnone', V0)] = b
            v = self if b else self.view()
            super(DumpNone, v).operate(s, f, cls, inst)


def jobs_n01(tier):
    out = []
    for k in (False, True):
        out += [_job(L, N(k), n01) for L in LOADS]
        out.append(_job(DumpNone, N(k), n01, sel=''))
    return out


VAL = COMMON[:1] + COMMON[2:] + ['str(), int() and float() of a value may return anything of that type or raise any exception']
TABLE = {
    'T01': dict(jobs=jobs_t01, explain='Every way a strict primitive field can treat a supplied value, and what is dumped.',
                floor=5, assume=VAL, mods=[t01]),
    'T02': dict(jobs=jobs_t02, explain='Every way a lenient primitive field can treat a supplied value, each conversion '
                'failing in every way.', floor=5, assume=VAL, mods=[t01]),
    'T03': dict(jobs=jobs_t03, explain='Every way a structure or typing field can treat a supplied value, the type '
                'validation accepting or refusing it, and what is dumped.', floor=5, assume=VAL, mods=[t03]),
    'N01': dict(jobs=jobs_n01, explain='Every way an object field can treat a supplied value and a stored one, the nested '
                'schema succeeding or failing with several errors.', floor=5, assume=VAL + [
                    'the nested schema is opaque: creating and dumping it may raise its validation error or any other error'],
                mods=[n01]),
}
