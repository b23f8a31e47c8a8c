"""Rules about how errors are phrased and reported."""
from .engine import C, H, NONE, Obj, S, World, is_raise
from .ops import NODE, V0, VS
from .registry import Job
from .rules_ops import COMMON, F_NONE, F_REQUIRED, HARD, code, is_v, noneness, schema_ok, show
from .rules_values import (A, B, DumpValue, Load, LoadAssign, LoadUpdate, N, NestWorld, P, Spec, T, TypeWorld, ValueWorld,
                           VAL, kind_of, lenient, quits, tspecs)
from .ops import LOAD, DUMP, DFLT, FAMS
from .direct import Direct
from .repo import AnalysisBroken
import re

BASE = ('ERR_FIELD_REQUIRED', 'ERR_NONE_DISALLOWED', 'ERR_VALIDATION_FAILED')


# ----------------------------------------------------------------------- E01
class _Hook:
    """The error formatting hook may return a text, a field error or nothing."""

    def outcomes(self, it, st, what, args, node):
        if what == 'format' and not self.setup:
            c = args[0] if args else C('?')

            def fe(s):
                r = it.call(s, self.fe_cls, (S(('fmt-fe-msg', c)),), {}, node)
                it.tag_exc(s, r[0][1], 'user')
                return r[0][1]
            return [('ret', S(('fmt-str', c), 'str')), ('ret', NONE), ('ret', fe)]
        return super().outcomes(it, st, what, args, node)


class HookValue(_Hook, ValueWorld):
    pass


class HookType(_Hook, TypeWorld):
    pass


class HookNest(_Hook, NestWorld):
    pass


class HookOwn(HookValue):
    """Deserializer, serializer, default and validators are user code that may fail."""
    stored = S('L*')

    def outcomes(self, it, st, what, args, node):
        if not self.setup and what in ('load', 'dump', 'w*', 'r*', 'default'):
            ret = {'load': S('L*'), 'dump': S('D*'), 'default': S('G*')}.get(what, NONE)
            return [('ret', ret), ('ValueError', None), ('AssertionError', None)]
        if what == 'load':
            return [('ret', V0)]
        return super().outcomes(it, st, what, args, node)


class Own(Spec):
    """A user field class."""
    world = HookOwn
    label = ''

    def __init__(self):
        super().__init__('base', 'Field', (), {}, {'value_load': LOAD, 'value_dump': DUMP})

    def __repr__(self):
        return 'Field'


def hooked(sp, world):
    sp.world = world
    return sp


def codes(sc, e):
    """The error codes the field's class declares."""
    names = set()
    for c in sc.it.mro(sc.su.ufield, e.st):
        if c[0] == 'cls':
            names |= set(sc.repo.classes[c[1]].attrs)
        elif c[0] == 'r':
            names |= set(e.st.heap[c[1]].attrs)
    return {n: code(sc, e, n) for n in sorted(names) if n.startswith('ERR_')}


def expected(sc, e):
    """[(code name, offending value)] of everything wrong on this path; None when a cause was not examined."""
    sp = sc.spec
    out = []
    if sc.op in ('load', 'load-update', 'load-assign'):
        if sc.given is None:
            if sc.default == 'none' and e.truth(F_REQUIRED) is True:
                out.append((BASE[0], C('no value')))
        elif noneness(e) is True:
            if e.truth(F_NONE) is not True:
                out.append((BASE[1], 'None'))
        elif isinstance(sp, P):
            inst = kind_of(sc, e, VS, sp.host)
            if inst is not True and e.kind != 'ok':
                out.append(('ERR_INVALID_DATATYPE' if sp.strict else 'ERR_COERCION_FAILED', VS))
        elif isinstance(sp, T):
            if sp.host is not None and kind_of(sc, e, VS, sp.host) is False:
                out.append(('ERR_INVALID_DATATYPE', VS))
            elif any(x[2] == C(False) for x in e.events('conforms')):
                out.append((sp.err, VS))
        elif isinstance(sp, N):
            if not e.events('create') and e.kind != 'ok' and kind_of(sc, e, VS, sp.host) is False:
                out.append(('ERR_INVALID_DATATYPE', VS))
    for ev in e.fails('load', 'dump', 'w*', 'r*', 'default'):
        t = e.truth(S(('str', ev[3]), 'str'))
        if t is None:
            return None
        if t is False:
            out.append((BASE[2], C('no value') if ev[1] == 'default' else ev[4]))
    return out


def e01(R, sc):
    texts = {}
    for e in sc.ends:
        if e.kind not in ('ok',) + HARD:
            if e.kind not in ('FrozenError', 'Other') and not quits(sc, e):
                R.need(False, sc, e, 'formatted', f'ends with {e.kind}')
            continue
        cs = codes(sc, e)
        by = {v: n for n, v in cs.items()}
        R.need(len(by) == len(cs), sc, e, 'distinct-codes', 'two failures share an error code: ' + ', '.join(sorted(
            n for n in cs if by[cs[n]] != n or list(cs.values()).count(cs[n]) > 1)))
        fm = e.events('format')
        want = expected(sc, e)
        if R.need(want is not None, sc, e, 'formatted', 'an error without a message was not told from one with a message'):
            got = sorted(by.get(x[4], show(x[4])) for x in fm)
            exp = sorted(n for n, _ in want)
            R.need(got == exp, sc, e, 'formatted', f'the hook is asked about {got or "nothing"} where {exp or "nothing"} failed')
            vals = [(by.get(x[4]), 'None' if x[4] == cs.get(BASE[1]) and is_v(e, x[7]) else x[7]) for x in fm]
            R.need(got != exp or sorted(map(repr, vals)) == sorted(map(repr, want)), sc, e, 'offending-value',
                   'the error context does not hold the offending value: ' + ', '.join(
                       f'{n}: {show(v)}' for n, v in vals if (n, v) not in want))
        for x in fm:
            R.need(x[6] == sc.f, sc, e, 'field-and-schema', f'the error context names the field {show(x[6])}')
            R.need(schema_ok(sc, e, x[8]), sc, e, 'field-and-schema', f'the error context names the schema {show(x[8])}')
            R.need(x[9] == C(True), sc, e, 'metadata', 'the metadata of the error context is no dictionary')
        if e.kind not in HARD:
            R.need(not fm, sc, e, 'formatted', 'completes although an error was formatted')
            continue
        errs, weak = e.errors()
        if not R.need(errs is not None and not weak, sc, e, 'hook-result', 'the errors raised are not known'):
            continue
        generic = default_message(sc, e, C('!no such code'))
        for x in fm:
            if x[3][0] == 's':
                R.need(sum(m[2] == x[3] for m in errs) >= 1, sc, e, 'hook-result', 'the text the hook returned is not used')
            elif x[3][0] == 'r':
                R.need(any(m[0] == x[3] for m in errs), sc, e, 'hook-result', 'the field error the hook returned is not used')
            else:
                n = by.get(x[4], '?')
                # the default messages: everything not explained otherwise
                mine = [m[2] for m in errs if not (m[2] is not None and m[2][0] == 's' and (
                    m[2][1][0] in ('fmt-str', 'fmt-fe-msg') or any(m[2] == S(('str', ev[3]), 'str') for ev in e.ev)))]
                R.need(len(mine) >= sum(1 for y in fm if y[3] == NONE), sc, e, 'default-message',
                       f'no default message replaces {n} although the hook returned None')
                for m in mine:
                    R.need(m is not None and m not in (NONE, C('')) and m not in generic, sc, e, 'default-message',
                           f'the default message for {n} is {"the one for unknown errors" if m in generic else show(m)}')
                if len(fm) == 1 and len(mine) == 1:
                    texts.setdefault(text(e, mine[0]), {}).setdefault(n, e)
    for n in BASE if sc.ends else ():
        for m in default_message(sc, sc.ends[0], code(sc, sc.ends[0], n)):
            texts.setdefault(m, {}).setdefault(n, sc.ends[0])
    for m, d in sorted(texts.items(), key=repr):
        R.need(len(d) == 1, sc, next(iter(d.values())), 'default-message',
               f'{" and ".join(sorted(d))} have the same default message {show(m)}')


def text(e, m):
    if m[0] == 'r':
        o = e.st.heap.get(m[1])
        return ('r', o.kind, o.strong) if o is not None else m
    return m


def default_message(sc, e, c):
    """What the field says by default of an error code, where it can be asked."""
    with sc.probing():
        out = set()
        for s, m in sc.it.get_attr(e.st.copy(), sc.f, '_get_default_error_message', NODE):
            if is_raise(m):
                continue
            ctx = sc.it.alloc(s, Obj('inst', ('other',)), NODE, 'errctx')
            for s2, v in sc.it.call(s, m, (c, ctx), {}, NODE):
                if not is_raise(v):
                    out.add(v)
        return out


class HookDump(DumpValue):
    pass


def jobs_e01(tier):
    J = lambda cls, sp, **kw: Job(cls, dict(spec=sp, **kw), e01)
    out = [J(L, Own()) for L in (Load, LoadUpdate, LoadAssign)]
    out += [J(L, Own(), inherited=True) for L in (Load, LoadUpdate, LoadAssign)]
    out += [J(Load, Own(), given=False), J(Load, Own(), given=False, default='call'), J(DumpValue, Own(), sel='')]
    for c in P.HOST:
        out.append(J(Load, hooked(P(c), HookValue)))
        out.append(J(Load, hooked(P(c), HookValue), given=False))
    for p in lenient()[:4]:
        out.append(J(Load, hooked(P(p.cls, False), HookValue)))
    for sp in tspecs():
        if sp.fmt:
            out.append(J(Load, hooked(sp, HookType)))
    out.append(J(Load, hooked(N(False), HookNest)))
    return out


# ----------------------------------------------------------------------- E02
K1, K2 = S('key1*', 'key'), S('key2*', 'key')
Q1, Q2 = S('q1*', 'key'), S('q2*', 'key')
SCH, CALLER, STATE = S('schema*', 'schema'), S('caller*', 'schema'), S('state*', 'plain')
CTX = S('context*', 'plain')
FOUND = S('field*', 'field')


def L(*x):
    return ('l', x)


def Tu(*x):
    return ('t', x)


def Se(*x):
    return ('S', x)


def D(*x):
    return ('d', tuple(zip((Q1, Q2), x)))


def m(i, tag='str'):
    return S((f'message{i}', tag), tag)


M1, M2, M3, M4 = (m(i) for i in range(1, 5))
P1, P2 = m(5, 'plain'), m(6, 'plain')

SHAPES1 = [M1, P1, NONE, C(''), C(0), L(), Tu(), L(M1), L(M1, P1), L(M1, M1), Tu(M1, P1, M2), Se(M1, M2), Se(), D(), D(M1), D(M1, P1),
           L(C(''), NONE)]
SHAPES2 = [L(L(M1, M2), M3), L(D(M1), M2), Tu(L(M1), D(P1, M2)), D(L(M1, P1), M2), D(D(M1, M2)), D(L(), D()), L(L()), L(D()),
           D(L(M1, M1)), L(D(L(M1, M2)), M3)]
SHAPES3 = [D(D(L(M1, D(M2, P1)), M3), L(D(L(M4)))), L(L(L(M1, P1), D(M2)), M3), D(L(L(M1), D(L(M2, M3), P1))),
           Tu(D(D(D(M1), M2), L(L(M3))), P1)]
REPORTS = [((K1, M1), (K1, M2)), ((K1, M1), (K2, M2)), ((K1, L(M1, P1)), (K1, M2)), ((K1, M1), (K1, L(M2, M3))),
           ((K1, L(M1, M2)), (K2, Tu(M3, P1))), ((K1, L(M1)), (K2, M2), (K1, L(M3, P1))), ((K1, D(L(M1))), (K1, D(L(M2)))),
           ((K1, M1), (K1, M1)), ((K1, L()), (K2, M1)), ((K2, M1), (K1, D(M2)), (K2, L(M3, D(M4)))), ((K1, L(M1)), (K1, L(M1)))]


class ReportWorld(World):
    """Messages are texts or other printable values."""
    max_recursion = 8
    named = ()
    focus = frozenset({K1, K2, Q1, Q2})

    def __init__(self, repo):
        self.repo = repo
        self.calls, self.maps = [], {}

    def sym_iter(self, it, st, v, node):
        return [it.raise_(st, TypeError, node)] if v[2] == 'plain' else None

    def decide_isinstance(self, it, st, v, cv):
        if v[0] == 's' and v[2] == 'plain' and cv[0] in ('H', 'cls'):
            return cv == H(object)
        return None

    def attr(self, it, st, v, name, node):
        if v[0] == 's' and v[2] == 'schema' and name in ('__load_fields__', '__fields__'):
            if (v, name) not in self.maps:
                return [(st, S((name, v), 'dict'))]
            return [(st, self.maps[v, name])]
        if v[0] == 's' and v[2] == 'field' and name == 'load_key' and v[1][0] == 'val' and v[1][1][1][0] == '__load_fields__':
            return [(st, v[1][2])]
        if v[0] == 's' and v[2] == 'schema' and name == '__class__':
            return [(st, S(('classof', v), 'class'))]
        if v[0] == 's' and v[2] == 'class' and name in ('__name__', '__qualname__'):
            return [(st, S((name, v), 'str'))]
        return None

    def opaque_call(self, it, st, fv, args, kwargs, node):
        if fv == INIT:
            self.calls.append((it.loc(node), st.path()))
            return [(st, NONE)]
        return None


INIT = S('user-init', 'func')


class ErrorReport(Direct):
    """ValidationError([FieldError, ...]) and its raw form."""
    op = 'report'
    world = ReportWorld

    def __init__(self, repo, report, sub=False):
        super().__init__(repo, report=report, sub=sub)
        self.report, self.sub = report, sub

    def name(self):
        return f'report({self.report!r}{", subclass" if self.sub else ""})'

    def value(self, st, sh, n=()):
        if sh[0] in ('s', 'c'):
            return sh
        k, xs = sh
        if k == 'd':
            return self.it.alloc(st, Obj('dict', strong=tuple((q, self.value(st, x, n + (i,))) for i, (q, x) in enumerate(xs))),
                                 NODE, ('msg', n))
        vs = tuple(self.value(st, x, n + (i,)) for i, x in enumerate(xs))
        if k == 't':
            return ('t', vs)
        return self.it.alloc(st, Obj('list' if k == 'l' else 'set', strong=vs, flags=frozenset({'given'})), NODE, ('msg', n))

    def ambient(self, st, schema, key, ctx):
        for nm, ref in self.cvars:
            v = schema if 'schema' in nm else key if 'key' in nm else ctx
            st.cv[ref] = v

    def run(self, st):
        from .ops import context_variables
        it = self.it
        self.cvars = context_variables(self.repo, it, st)
        for a, b in ((K1, K2), (Q1, Q2)):
            st.facts[('eq',) + tuple(sorted((a, b), key=repr))] = False
        fe, ve = self.cls_of('oblate.exceptions', 'FieldError'), self.cls_of('oblate.exceptions', 'ValidationError')
        for x in (SCH, CALLER):
            for n in ('__load_fields__', '__fields__'):
                it.world.maps[x, n] = it.alloc(st, Obj('dict', others=(S((n, x), 'dict'), 'key', 'field')), NODE, ('map', x, n))
        st.pins = st.pins + tuple(it.world.maps.values())
        refs, self.want = [], []
        for i, (k, sh) in enumerate(self.report):
            self.ambient(st, SCH, k, CTX)
            v = self.value(st, sh, (i,))
            it.ctx = it.ctx + (('error', i),)
            r = it.call(st, fe, (v, STATE), {}, NODE)
            it.ctx = it.ctx[:-1]
            if len(r) != 1 or is_raise(r[0][1]):
                return r
            st, e = r[0]
            if self.sub:
                c = it.alloc(st, Obj('class', None, {'__name__': C('UserError'), '__init__': INIT}, strong=(fe,)), NODE, 'fesub')
                st.heap[e[1]] = st.heap[e[1]].copy(cls=c)
            refs.append(e)
            st.pins = st.pins + (e,)
            self.want += [(k, x) for x in (sh[1] if sh[0] in ('l', 't', 'S') else (sh,))]
        self.ambient(st, CALLER, S('outer-key', 'key'), S('outer-context', 'plain'))
        lst = it.alloc(st, Obj('list', strong=tuple(refs)), NODE, 'errors')
        return it.call(st, ve, (lst,), {}, NODE)


class Errors(tuple):
    def __repr__(self):
        return ', '.join(f'{k[1][0].strip("*")}: {shape_name(x)}' for k, x in self)


def shape_name(sh):
    if sh[0] == 'c':
        return repr(sh[2])
    if sh[0] == 's':
        return 'text' if sh[2] == 'str' else 'object'
    if sh[0] == 'd':
        return '{' + ', '.join(shape_name(x) for _, x in sh[1]) + '}'
    a, b = {'l': '[]', 't': '()', 'S': '{}'}[sh[0]]
    return a + ', '.join(shape_name(x) for x in sh[1]) + b


def same(st, v, sh, printed):
    """Is the value the message of this shape (printed: with texts for its values)?"""
    if sh[0] in ('s', 'c'):
        if v == sh:
            return True
        if not printed:
            return False
        if sh[0] == 'c':
            return v == C(str(sh[2]))
        return v == S(('str', sh), 'str')
    if sh[0] == 't' and v[0] == 't':
        return len(v[1]) == len(sh[1]) and all(same(st, a, b, printed) for a, b in zip(v[1], sh[1]))
    o = st.heap.get(v[1]) if v[0] == 'r' else None
    if o is None or not o.exact():
        return False
    if sh[0] == 'd':
        return o.kind == 'dict' and len(o.strong) == len(sh[1]) and all(
            any(k == k2 and same(st, x, y, printed) for k2, x in o.strong) for k, y in sh[1])
    return o.kind == {'l': 'list', 'S': 'set', 't': 'list'}[sh[0]] and len(o.strong) == len(sh[1]) and \
        all(same(st, a, b, printed) for a, b in zip(o.strong, sh[1]))


def matched(got, want, eq):
    """Pair every found element with a different wanted one."""
    left = list(want)
    extra = []
    for g in got:
        for i, w in enumerate(left):
            if eq(g, w):
                del left[i]
                break
        else:
            extra.append(g)
    return extra, left


def e02(R, sc):
    it = sc.it
    for loc, path in it.world.calls:
        R.need(False, sc, path, 'copies-keep', f'{loc}: copying an error runs the initializer of its class again')
    for e in sc.ends:
        if not R.need(e.kind == 'ok', sc, e, 'report-built', f'building the error ends with {e.kind}'):
            continue
        r = e.read(e.val, 'errors')
        o = e.st.heap.get(r[1]) if r is not None and r[0] == 'r' else None
        if R.need(o is not None and o.kind == 'list' and o.exact(), sc, e, 'one-per-element', 'the errors listed are not known'):
            got = [(e.read(x, 'key'), e.read(x, 'message'), x) for x in o.strong]
            extra, left = matched(got, sc.want, lambda g, w: g[0] == w[0] and g[1] is not None and same(e.st, g[1], w[1], False))
            R.need(not left, sc, e, 'one-per-element', 'no error for ' + ', '.join(shape_name(w[1]) for w in left))
            R.need(not extra, sc, e, 'one-per-element', f'{len(extra)} errors more than messages (or under another key)')
            for k, m_, x in got:
                R.need(e.read(x, 'state') == STATE, sc, e, 'copies-keep', f'an error has the state {show(e.read(x, "state"))}')
                R.need(e.read(x, 'schema') == SCH, sc, e, 'copies-keep', f'an error has the schema {show(e.read(x, "schema"))}')
                R.need(e.read(x, 'context') == CTX, sc, e, 'copies-keep', f'an error has the context {show(e.read(x, "context"))}')
                if m_ is not None and m_[0] in 'sc' and not sc.sub:
                    ts = [t for _, t in it.call(e.st.copy(), H(str), (x,), {}, NODE)]
                    R.need(len(ts) == 1 and (same(e.st, ts[0], m_, True) or flat(e.st, ts[0]) == [m_]), sc, e, 'text-is-message',
                           f'the text of the error with the message {show(m_)} is {" or ".join(map(show, ts))}')
        raws = []
        e.st.pins = e.st.pins + (e.val,)
        for s, f in it.get_attr(e.st.copy(), e.val, 'raw', NODE):
            raws += [(s, f)] if is_raise(f) else it.call(s, f, (), {}, NODE)
        for s, v in raws:
            if not R.need(not is_raise(v), sc, s.path(), 'raw-complete', 'raw() fails'):
                continue
            raw(R, sc, e, s, v)
            # asking again gives the same
            for s1, f in it.get_attr(s.copy(), e.val, 'raw', NODE):
                for s2, v2 in it.call(s1, f, (), {}, NODE):
                    if R.need(not is_raise(v2), sc, s2.path(), 'raw-complete', 'raw() fails the second time'):
                        raw(R, sc, e, s2, v2)


def raw(R, sc, e, s, v):
    o = s.heap.get(v[1]) if v[0] == 'r' else None
    keys = {k for k, _ in sc.want}
    if not R.need(o is not None and o.kind == 'dict' and o.exact(), sc, s.path(), 'raw-complete', 'the raw form is not known'):
        return
    R.need({k for k, _ in o.strong} == keys and len(o.strong) == len(keys), sc, s.path(), 'raw-complete',
           'the raw form has the keys ' + show({k for k, _ in o.strong}))
    for k, x in o.strong:
        l = s.heap.get(x[1]) if x[0] == 'r' else None
        want = [w for kk, w in sc.want if kk == k]
        if not R.need(l is not None and l.kind == 'list' and l.exact(), sc, s.path(), 'raw-complete', 'no list of messages under a key'):
            continue
        extra, left = matched(l.strong, want, lambda g, w: same(s, g, w, True))
        R.need(not left, sc, s.path(), 'raw-complete', 'the raw form lacks ' + ', '.join(shape_name(w) for w in left))
        R.need(not extra, sc, s.path(), 'raw-complete', f'the raw form has {len(extra)} messages of its own')


def jobs_e02(tier):
    reps = [((K1, sh),) for sh in SHAPES1 + SHAPES2 + SHAPES3] + REPORTS
    if tier == 'thorough':
        reps += [((K1, a), (k, b)) for a in SHAPES1 + SHAPES2 for b in SHAPES1 + SHAPES2 for k in (K1, K2)]
    return [Job(ErrorReport, dict(report=Errors(r)), e02) for r in reps] + [Job(ErrorReport, dict(report=Errors(((K1, L(M1, M2)),)), sub=True), e02)]


# ----------------------------------------------------------------------- E03
def flat(st, v):
    """A text as literal strings and tokens; None when its construction is not followed."""
    if v[0] == 'c':
        return [str(v[2])]
    if v[0] == 's' and v[1][0] == 'fmt' and len(v[1]) == 2:
        out = []
        for x in v[1][1]:
            r = flat(st, x)
            if r is None:
                return None
            out += r
        return out
    if v[0] == 's' and v[1][:2] == ('strm', 'join'):
        out = []
        for n, x in enumerate(v[1][3:]):
            a, b = flat(st, x), flat(st, v[1][2]) if n else []
            if a is None or b is None:
                return None
            out += b + a
        return out
    if v[0] == 's' and v[1][0] in ('str', 'repr') and len(v[1]) == 2:
        x = v[1][1]
        if x[0] == 'len':
            o = st.heap.get(x[1][1]) if x[1][0] == 'r' else None
            return [str(len(o.strong))] if o is not None and o.exact() else None
        return flat(st, x) if x[0] == 's' else [S(('printed', x), 'str')] if x[0] == 'r' else None
    if v[0] == 's' and v[1][0] not in ('strm', 'fmt', 'binop'):
        return [v]
    return None


def lines(parts):
    """(indentation, literal text, tokens) of every line that has any of either."""
    out, cur = [], ['', []]
    for x in parts:
        if isinstance(x, tuple):
            cur[1].append(x)
            cur[0] += '\0'
            continue
        first, *rest = x.split('\n')
        cur[0] += first
        for r in rest:
            out.append(cur)
            cur = [r, []]
    out.append(cur)
    return [(len(t) - len(t.lstrip(' ')), t, k) for t, k in out if t.strip(' │') or k]


def leaves(path, sh):
    if sh[0] == 'd':
        return [x for q, y in sh[1] for x in leaves(path + (q,), y)]
    if sh[0] in ('l', 't', 'S'):
        return [x for y in sh[1] for x in leaves(path, y)]
    return [(path, sh)]


def other_names(sc, e, st, key):
    """Names, other than the key, of the field that failed under the key."""
    it, out = sc.it, set()
    r = e.read(e.val, 'errors')
    for x in st.heap[r[1]].strong if r is not None and r[0] == 'r' else ():
        if e.read(x, 'key') != key:
            continue
        for s, f in it.get_attr(st.copy(), x, 'field', NODE):
            if is_raise(f) or f == NONE:
                continue
            for s2, n in it.get_attr(s, f, 'name', NODE):
                if not is_raise(n) and (s2.facts.get(('eq', n, key)), s2.facts.get(('eq', key, n))) == (None, None) or \
                        False in (s2.facts.get(('eq', n, key)), s2.facts.get(('eq', key, n))):
                    out.add(n)
    return out


def e03(R, sc):
    it = sc.it
    keys = {K1, K2, Q1, Q2}
    for e in sc.ends:
        if not R.need(e.kind == 'ok', sc, e, 'text-built', f'building the error ends with {e.kind}'):
            continue
        for s, v in it.call(e.st.copy(), H(str), (e.val,), {}, NODE):
            if not R.need(not is_raise(v), sc, s.path(), 'text-built', 'the text of the error cannot be had'):
                continue
            parts = flat(s, v)
            if parts is None:
                raise AnalysisBroken('the text of the error is built in a way that is not followed: ' + show(v)[:200])
            stack, got, tops, head = [], [], [], []
            for ind, text_, toks in lines(parts):
                ks = [t for t in toks if t in keys]
                ms = [t for t in toks if t[1][0].startswith('message')]
                if not ks and not ms:
                    if not tops:
                        head.append((text_, toks))
                    else:
                        R.need(not toks, sc, s.path(), 'field-shown', 'the text has a line below the heading that shows no field and no message')
                    continue
                stack = [(i, k) for i, k in stack if i < ind]
                path = tuple(k for _, k in stack)
                if ks:
                    R.need(not ms and len(set(ks)) == 1, sc, s.path(), 'field-shown', 'one line shows several fields or a message too')
                    if not stack:
                        for nm in other_names(sc, e, s, ks[0]):
                            R.need(nm in toks, sc, s.path(), 'name-shown', 'the line of a field whose name is not its key lacks the name')
                    if not stack:
                        tops.append(ks[0])
                    stack.append((ind, ks[0]))
                got += [(path, m_) for m_ in ms]
            want = [((k,) + p_, x) for k, sh in sc.want for p_, x in leaves((), sh)]
            extra, left = matched(got, want, lambda a, b: a == b)
            R.need(not left, sc, s.path(), 'message-shown', 'the text lacks ' + ', '.join(
                f'the {shape_name(x)} under {".".join(q[1][0].strip("*") for q in p_)}' for p_, x in left) + ' (or shows it elsewhere)')
            R.need(not extra, sc, s.path(), 'message-shown', f'the text shows {len(extra)} messages twice or where they do not belong')
            fields = {k for k, _ in sc.want}
            R.need(sorted(tops, key=repr) == sorted(fields, key=repr), sc, s.path(), 'field-shown',
                   f'{len(tops)} fields are shown at the outer level where {len(fields)} fail')
            nums = [int(n) for t, _ in head for n in re.findall(r'\d+', t)]
            R.need(nums == [len(fields)], sc, s.path(), 'count-shown', f'the heading has the numbers {nums} where {len(fields)} fields fail')
            R.need(any(('classof', CALLER) == x[1][1][1] for _, k in head for x in k if x[1][0] in ('__qualname__', '__name__')),
                   sc, s.path(), 'schema-shown', 'the heading does not name the schema')


SHOWN = [((K1, M1),), ((K1, P1),), ((K1, L(M1, P1)),), ((K1, D(M1)),), ((K1, D(L(M1, P1), M2)),), ((K1, D(D(M1, M2))),),
         ((K1, D(D(L(M1, M3), M2), L(P1))),), ((K1, L(D(L(M1)), M2)),), ((K1, D(L(D(M1, L(M2, P1)), M3))),), ((K1, Tu(M1, P1, M2)),),
         ((K1, D(D(D(M1), M2), M3)),), ((K1, L(M2, D(L(M1)))),)] + [r for r in REPORTS if not any(x == L() for _, x in r)]


def jobs_e03(tier):
    reps = list(SHOWN)
    pool = [sh for ((_, sh),) in SHOWN[:12]]
    if tier == 'thorough':
        reps += [((K1, a), (k, b)) for a in pool for b in pool for k in (K1, K2)]
    return [Job(ErrorReport, dict(report=Errors(r)), e03) for r in reps]


TABLE = {
    'E03': dict(jobs=jobs_e03, explain='The text of reports of one to three errors with messages nested to four levels, as literal '
                'strings and the symbols of keys and messages.', floor=20, assume=[
                    'keys and messages are single lines; the nesting of the text is its indentation'], mods=[e03]),
    'E01': dict(jobs=jobs_e01, explain='Every way the fields can fail, the formatting hook returning a text, a field error or nothing.',
                floor=20, assume=VAL, mods=[e01]),
    'E02': dict(jobs=jobs_e02, explain='Reports of one to three errors with every kind of message (texts, other values, lists, tuples, '
                'sets, dictionaries nested to three levels), built and asked for their raw form twice.', floor=20, assume=[
                    'the values messages are made of can be printed and are no lists, tuples, sets, dictionaries or field errors'],
                mods=[e02]),
}
