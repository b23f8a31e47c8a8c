"""Scenarios over schema operations: construct, update, assign, dump, read.

One field (f*), its name, load key and dump key, one unknown key (u*), one
normal and one raw validator (w*, r*) are followed exactly; every other field,
key and validator is a summary. User code is opaque and every call to it has
all outcomes a property quantifies over.
"""
import ast
import functools
import types

from .engine import (C, H, NONE, TRUE, FALSE, Interp, Obj, S, State, World, has_old, held, is_raise, old)
from .repo import AnalysisBroken
from . import models
import collections.abc

NS = S('n*', 'name')
KS = S('k*', 'key')
DS = S('d*', 'dkey')
US = S('u*', 'key')
VS = S('v*')
V0 = S('v0*')
XS = S('x*')
WS = S('w*', 'validator')
RS = S('r*', 'validator')
HOOKS = {}


def hook(name):
    s = ('s', ('hook', name), 'callable')
    HOOKS[s] = name
    return s


# what a callable of the user may be
KINDS = {H(x) for x in (type, types.FunctionType, types.MethodType, types.BuiltinFunctionType, functools.partial)}
LOAD, DUMP, FMT, DFLT, PRE, POST = (hook(x) for x in ('load', 'dump', 'format', 'default', 'preprocess', 'post_init'))
LIVE, STALE = S('config!live', 'gconfig'), S('config!import-time', 'gconfig')
VE, VE_STALE = S('configured error class', 'class'), S('import-time error class', 'class')
FAMS = ('ValueError', 'AssertionError', 'FieldError', 'Other')
NODE = ast.Pass()
PARENT = ast.Pass(lineno=1, col_offset=1)


class OpWorld(World):
    focus = frozenset({NS, KS, DS, US, WS, RS})
    sorts = frozenset({'key', 'name', 'dkey', 'validator'})
    max_recursion = 3
    implies = {S('values0', 'dict'): S('fields', 'dict')}

    def __init__(self, repo):
        self.repo = repo
        self.field_cls = ('cls', repo.require_class('oblate.fields.base', 'Field'))
        self.schema_cls = ('cls', repo.require_class('oblate.schema', 'Schema'))
        self.fe_cls = ('cls', repo.require_class('oblate.exceptions', 'FieldError'))
        self.ve_cls = ('cls', repo.require_class('oblate.exceptions', 'ValidationError'))
        self.fmt = 'str'           # outcomes of format_error: 'str' or 'all'
        self.others = 'all'        # 'all' outcomes or 'fine'
        self.setup = True
        self.past = True           # the configuration object of then is replaced before the operation
        self.user_cls = None
        self.late = []
        self.data2 = None
        self.record = True
        self.pre_heap = frozenset()
        self.mutations = []
        self.stamping = False
        self.clobbered = set()     # attributes assigned on summarised records: nothing is known of them
        self.opaque_classes = (self.field_cls, self.schema_cls)

    # ---- attributes of symbols
    def attr_tag(self, base, name):
        return {'_name': 'name', 'name': 'name', '_load_key': 'key', 'load_key': 'key', '_key': 'key',
                'key': 'key', '_dump_key': 'dkey', 'dump_key': 'dkey'}.get(name, 'optany')

    def attr(self, it, st, v, name, node):
        t = v[0]
        if t == 'mod' and v[1] == self.repo.package and name == 'config':
            return [(st, STALE if self.past else LIVE)]
        if v == LIVE or v == STALE:
            if name == 'validation_error_cls':
                return [(st, VE if v == LIVE else VE_STALE)]
            return [(st, S((v[1][0], name), 'bool'))]
        if v == RS and name == '__validator_is_raw__':
            return [(st, TRUE)]
        if v in HOOKS or v in (WS, RS):
            if name in ('__name__', '__qualname__'):
                return [(st, S(('nameof', v), 'str'))]
            return [it.raise_(st, AttributeError, node, name)]
        if t in 'so' and v[-1] == 'field' and name in ('value_load', 'value_dump', 'format_error'):
            return [(st, ('hm', v, name))]
        if t == 's' and v[1][0] == 'val' and v[2] == 'field' and len(v[1]) == 3:
            # a field is registered under its own name and under its load key
            if v[1][1] == S('fields', 'dict') and self.attr_tag(v, name) == 'name':
                return [(st, v[1][2])]
            if v[1][1] == S('loadfields', 'dict') and self.attr_tag(v, name) == 'key':
                return [(st, v[1][2])]
        if t in 'so' and v[-1] == 'validator' and name == '__validator_is_raw__':
            r = [(st.copy(), TRUE), (st.copy(), FALSE), it.raise_(st, AttributeError, node, name)]
            return r
        return None

    def glob(self, it, st, mod, name):
        # a name bound to the configuration object when its module was imported
        if name == 'config' and mod:
            e = self.repo.find_global(mod, name)
            if e is not None and (mod.endswith('.configs') or e[0] == 'import' and e[1].endswith('configs')
                                  and e[2] == 'config'):
                return LIVE if mod == self.repo.package and not self.past else STALE
        return None

    def decide_isinstance(self, it, st, v, cv):
        if v in (WS, RS, DFLT) and (cv in KINDS or v != DFLT and cv[0] == 'cls' and cv[1] == 'oblate.validate:Validator'):
            return None
        if v in HOOKS or v in (WS, RS):
            return cv in (H(object), H(collections.abc.Callable))
        if v[0] == 'r' and v[1] in st.heap:
            o = st.heap[v[1]]
            if o.kind == 'inst' and o.cls in (VE, VE_STALE):
                return bool(it.issub(self.ve_cls, cv, st)) or cv == o.cls
            if o.kind == 'inst' and o.cls[0] == 's':
                return None
        return None

    def decide_issub(self, it, st, a, b):
        if a in (VE, VE_STALE):
            return bool(it.issub(self.ve_cls, b, st))
        return None

    # ---- ambient stamp
    def ambient(self, it, st):
        """(schema, key, context) an error created now would carry."""
        s = st.copy()
        self.stamping = True
        try:
            res = it.call(s, self.fe_cls, (C('probe'),), {}, NODE)
            out = []
            for s2, e in res:
                if is_raise(e):
                    return (C('unset'),) * 3
                vals = []
                for a in ('schema', 'key', 'context'):
                    r = it.get_attr(s2, e, a, NODE)
                    vals.append(r[0][1] if len(r) == 1 and not is_raise(r[0][1]) else C('?'))
                out.append(tuple(vals))
            return out[0] if len(out) == 1 else (C('?'),) * 3
        finally:
            self.stamping = False

    # ---- calls
    def call(self, it, st, fv, args, kwargs, node):
        if fv in (VE, VE_STALE):
            o = Obj('inst', fv, {'args': ('t', tuple(args))}, flags=frozenset({'ve'}))
            amb = self.ambient(it, st)
            o.attrs['!amb'] = amb[0]
            snap = ()
            if args and args[0][0] == 'r' and args[0][1] in st.heap:
                c = st.heap[args[0][1]]
                # the library's error class copies what it is given
                if c.kind in ('list', 'set'):
                    o.attrs['!errors'] = it.alloc(st, c.copy(kind='list', cls=None), node, 'snap')
            return [(st, it.alloc(st, o, node, 've'))]
        return None

    def opaque_call(self, it, st, fv, args, kwargs, node):
        if fv in HOOKS or fv in (WS, RS):
            what = HOOKS.get(fv) or fv[1][0]
            return self.user(it, st, what, args, kwargs, node)
        if fv[0] == 'hm' and fv[2] == 'format_error':
            return [(st, it.fresh(node, 'fmt-other', 'str'))]
        if not self.setup and (fv[0] == 'hm' and fv[2] == 'value_load' or fv[0] in 'so' and fv[-1] == 'optany') \
                and any(e[1] in ('w*', 'r*') for e in st.ev):
            self.late.append((it.loc(node), st.path(), fv))
        if fv[0] in 'so' and fv[-1] == 'validator' or fv[0] == 'hm' or fv[0] in 'so':
            if self.setup or self.others == 'fine':
                return [(st, it.fresh(node, 'ret', 'any'))]
            return it.user_outcomes(st, node, 'user code of another field', 'any',
                                    raises=('ValueError', 'FieldError', 'Other') if self.others == 'all' else ('ValueError',))
        return [(st, old('any'))]

    def user(self, it, st, what, args, kwargs, node):
        it.user_calls[(what, it.nkey(node))] += 1
        amb = self.ambient(it, st)
        info = self.describe(it, st, what, args, kwargs)
        out = []
        for outcome, ret in self.outcomes(it, st, what, args, node):
            s = st.copy()
            if outcome == 'ret':
                rs = [(s, ret(s) if callable(ret) else ret)]
                s.note(f'{it.loc(node)}: {what} returns')
            else:
                s.note(f'{it.loc(node)}: {what} raises {outcome}')
                rs = it.user_raise(s, outcome, node, what)
            for s2, v in rs:
                val = v
                if is_raise(v):
                    # what the error says, rather than the exception object
                    o = s2.heap[v[1][1]]
                    a = o.attrs.get('args', old('any'))
                    val = a[1][0] if a[0] == 't' and len(a[1]) == 1 else C('-')
                out_ = 'std' if outcome in ('ValueError', 'AssertionError') else outcome
                e = ('u', what, C(out_), val) + info + amb
                it.event(s2, e)
                out.append((s2, v))
        return out

    def describe(self, it, st, what, args, kwargs):
        """Values describing the arguments of a user call:

        (value or code, context, context.field, context.value, schema, update status)
        """
        def at(v, name):
            r = it.get_attr(st.copy(), v, name, NODE)
            return r[0][1] if len(r) == 1 and not is_raise(r[0][1]) else C('?')

        def arg(i, *names):
            if i < len(args):
                return args[i]
            for n in names:
                if n in kwargs:
                    return kwargs[n]
            return C('?')

        def status(c, name):
            out = set()
            for s2, m in it.get_attr(st.copy(), c, name, NODE):
                if is_raise(m):
                    return C('?')
                for s3, x in it.call(s2, m, (), {}, NODE):
                    if is_raise(x):
                        return C('?')
                    for s4, b in it.truth(s3, x):
                        out.add(b)
            return C(out.pop()) if len(out) == 1 else C('?')

        def both(a, b):
            return a if a == b else C('?')
        if what in ('load', 'dump'):
            c = arg(1, 'context')
            return (arg(0, 'value'), c, at(c, 'field'), at(c, 'value'), at(c, 'schema'),
                    status(c, 'is_update') if what == 'load' else C('-'))
        if what in ('w*', 'r*'):
            c = arg(2)
            return (arg(1), c, at(c, 'field'), at(c, 'value'), both(arg(0), at(c, 'schema')), status(c, 'is_update'))
        if what == 'format':
            c = arg(1)
            r = []
            for n in ('get_value',):
                for s2, m in it.get_attr(st.copy(), c, n, NODE):
                    for s3, x in it.call(s2, m, (), {}, NODE):
                        r.append(C('no value') if is_raise(x) else x)
            v = r[0] if len(r) == 1 else C('?')
            m = at(c, 'metadata')
            m = C(m[0] == 'r' and m[1] in st.heap and st.heap[m[1]].kind == 'dict' or m[0] == 's' and m[2] == 'dict')
            return (both(arg(0), at(c, 'error_code')), c, at(c, 'field'), v, at(c, 'schema'), m)
        if what == 'post_init':
            me = self.self_of(st)
            sc = at(me, 'context') if me[0] == 'r' else C('?')
            return (C('-'), sc, C('-'), C('-'), me, status(sc, 'is_initialized'))
        a = tuple(args) + (C('-'),) * 6
        return a[:6]

    def self_of(self, st):
        """The schema object under construction or operation."""
        m = [u for u, o in st.heap.items() if o.kind == 'inst' and o.cls == self.user_cls]
        return ('r', m[0]) if len(m) == 1 else C('?')

    def outcomes(self, it, st, what, args, node):
        if self.setup:
            if what == 'load':
                return [('ret', S('L0*'))]
            if what == 'preprocess':
                return [('ret', args[0])]
            return [('ret', NONE if what != 'format' else S('fmt-str', 'str'))]
        if what == 'load':
            return [('ret', S('L*'))] + [(f, None) for f in FAMS]
        if what == 'dump':
            return [('ret', S('D*'))] + [(f, None) for f in FAMS]
        if what in ('w*', 'r*'):
            return [('ret', NONE)] + [(f, None) for f in FAMS]
        if what == 'default':
            return [('ret', S('G*'))] + [(f, None) for f in FAMS]
        if what == 'format':
            code = args[0] if args else C('?')

            def fe(s):
                r = it.call(s, self.fe_cls, (S(('fmt-fe-msg', code)),), {}, node)
                it.tag_exc(s, r[0][1], 'user')
                return r[0][1]
            if self.fmt == 'str':
                return [('ret', S(('fmt-str', code), 'str'))]
            return [('ret', S(('fmt-str', code), 'str')), ('ret', NONE), ('ret', fe), ('Other', None)]
        if what == 'preprocess':
            return [('ret', self.data2 or args[0]), ('Other', None)]
        if what == 'post_init':
            return [('ret', NONE), ('Other', None)]
        return [('ret', NONE)]

    def mutate(self, it, st, target, what, node):
        if not self.setup and not self.stamping and target[0] == 'r' and target[1] in self.pre_heap:
            self.mutations.append((it.loc(node), target, what, st))
        elif not self.setup and not self.stamping and target[0] != 'r' and not (target[0] == 's' and False):
            self.mutations.append((it.loc(node), target, what, st))

    def elem_tag(self, v):
        return 'any'


def context_variables(repo, it, st):
    """(name, reference) of every context variable of the package."""
    out = []
    for m in repo.modules.values():
        for nm, e in m.defs.items():
            if e[0] == 'expr' and isinstance(e[1], ast.Call) and \
                    (getattr(e[1].func, 'id', None) or getattr(e[1].func, 'attr', None)) == 'ContextVar':
                (s, ref), = it.global_value(st, m.name, nm, NODE)
                if s is not st:
                    st.__dict__.update(s.__dict__) if hasattr(s, '__dict__') else [setattr(st, k, getattr(s, k)) for k in s.__slots__]
                out.append((nm, ref))
    return out


def mentions(t, v):
    if t == v:
        return True
    return isinstance(t, tuple) and any(mentions(x, v) for x in t)


class End:
    __slots__ = ('st', 'val', 'exc')

    def __init__(self, st, v):
        self.st = st
        self.exc = v[1] if is_raise(v) else None
        self.val = None if is_raise(v) else v


class Setup:
    """A user schema class with the focus field, built by the package's own code."""

    def __init__(self, repo, default='none', ambient=True, world=None, solo=False, required=None, inherited=False, vals=None):
        self.repo = repo
        self.solo = solo
        self.inherited = inherited
        self.w = w = (world or OpWorld)(repo)
        self.it = it = Interp(repo, w)
        st = State()
        st.facts[('eq', NS, C('__repr__'))] = False
        st.facts[('in', S('o*', 'name'), S('fields', 'dict'))] = True
        # ambient record
        self.cvars = context_variables(repo, it, st)
        if not self.cvars:
            raise AnalysisBroken('no context variable found in the package')
        tags = {'current_schema': ('inst', w.schema_cls), 'current_field_key': 'key'}
        if ambient:
            for nm, ref in self.cvars:
                st.cv[ref] = S(('outer', nm), tags.get(nm, 'any'))
        self.cfg = cfg = it.alloc(st, Obj('class', None, {
            '__name__': C('Config'), 'frozen': S('cfg.frozen', 'bool'), 'ignore_extra': S('cfg.ignore_extra', 'bool'),
            'add_repr': TRUE, 'slotted': FALSE},
            strong=(('cls', repo.require_class('oblate.configs', 'SchemaConfig')),)), NODE, 'cfgclass')
        self.ufield = self.field_class(st)
        vlist = it.alloc(st, Obj('list', strong={None: (WS, RS), 'plain': (WS,), 'raw': (RS,), 'no': ()}[vals]), NODE, 'validators')
        kw = {'none': S('f.none', 'bool'), 'required': S('f.required', 'bool') if required is None else C(required), 'frozen': S('f.frozen', 'bool'),
              'load_key': KS, 'dump_key': DS, 'validators': vlist}
        if default == 'const':
            kw['default'] = S('default*', 'plain')
        elif default == 'None':
            kw['default'] = NONE
        elif default == 'call':
            kw['default'] = DFLT
        self.inits = []
        st.pins = (cfg, self.ufield)
        for s, f in self.make_field(st, kw):
            if is_raise(f):
                raise AnalysisBroken('creating a field fails')
            s.pins = s.pins + (f,)
            mine = ((NS, f), (C('Config'), cfg))
            hooks = ((C('preprocess_data'), PRE), (C('__schema_post_init__'), POST))
            bases = [(s, w.schema_cls)]
            if inherited:
                bases = self.subclass(s, 'ParentSchema', w.schema_cls, mine)
                mine = ((C('Config'), cfg),)
            for s1, base in bases:
                for s2, cls in self.subclass(s1, 'UserSchema', base, mine + hooks):
                    if not solo:
                        self.add_others(s2, f)
                    self.inits.append((s2, f, cls))
        if not self.inits:
            raise AnalysisBroken('no schema class could be built')

    def subclass(self, st, name, base, members):
        """class name(base): members"""
        it = self.it
        attrs = it.alloc(st, Obj('dict', strong=((C('__module__'), C('user')), (C('__qualname__'), C(name))) + members), NODE, ('ns', name))
        out = []
        for s, cls in build_class(it, st, it.metaclass(self.w.schema_cls), C(name), ('t', (base,)), attrs, PARENT if name == 'ParentSchema' else NODE):
            if is_raise(cls):
                raise AnalysisBroken('creating a schema class fails: ' + repr(cls))
            s.pins = s.pins + (cls,)
            out.append((s, cls))
        return out

    def field_class(self, st):
        return self.it.alloc(st, Obj('class', None, {
            '__name__': C('UserField'), 'value_load': LOAD, 'value_dump': DUMP, 'format_error': FMT},
            strong=(self.w.field_cls,)), NODE, 'fieldclass')

    def make_field(self, st, kw):
        return self.it.call(st, self.ufield, (), kw, NODE)

    def stored_ok(self, s):
        """Does this end of the set-up construction hold the stand-in for the old value?"""
        return any(e[1] == 'load' for e in s.ev if e[0] == 'u')

    OLD = S('L0*')

    def add_others(self, st, f):
        """Every registry holding the focus field also holds any number of other fields."""
        n = 0
        for uid, o in list(st.heap.items()):
            if o.kind == 'dict' and any(v == f for _, v in o.strong) and self.class_owned(st, ('r', uid)):
                tag = 'name' if any(k == NS for k, v in o.strong if v == f) else 'key'
                st.heap[uid] = o.copy(others=(S('fields', 'dict') if tag == 'name' else S('loadfields', 'dict'), tag, 'field'),
                                      flags=o.flags | {'excl'})
                n += 1
            if o.kind == 'list' and any(v in (WS, RS) for v in o.strong) and self.inst_owned(st, f, ('r', uid)):
                st.heap[uid] = o.copy(others=(S(('validators', o.strong), 'list'), 'validator'),
                                      flags=o.flags | {'excl'})

    def class_owned(self, st, ref):
        return any(o.kind == 'class' and ref in o.attrs.values() for o in st.heap.values())

    def inst_owned(self, st, f, ref):
        return f[0] == 'r' and ref in st.heap[f[1]].attrs.values()

    def mapping(self, st, entries, base='data', others=True, tag='dmap'):
        others = others and not self.solo
        return self.it.alloc(st, Obj('dict', H(collections.abc.Mapping), strong=tuple(entries),
                                     others=(S(base, 'dict'), 'key', 'any') if others else None,
                                     flags=frozenset({'user', 'excl'})), NODE, tag)

    def instance(self, st, f, cls, has_value):
        """A successfully constructed instance, with or without a value for f*."""
        it, w = self.it, self.w
        w.setup = w.past = True
        data = self.it.alloc(st, Obj('dict', H(collections.abc.Mapping), strong=((KS, V0),)), NODE, 'd0')
        res = []
        for s, v in it.call(st, cls, (data,), {'ignore_extra': TRUE}, NODE):
            if is_raise(v):
                continue
            if self.stored_ok(s):
                res.append((s, v))
        out = []
        for s, v in res:
            s.ev = ()
            s.trace = None
            s.pins = s.pins + (v,)
            s.facts = {k: b for k, b in s.facts.items() if not mentions(k, V0)}
            found = False
            for uid, o in list(s.heap.items()):
                if o.kind == 'dict' and any(x == self.OLD for _, x in o.strong):
                    found = True
                    strong = o.strong if has_value else ()
                    s.heap[uid] = o.copy(strong=strong, weak=frozenset(), ne=None, others=None if self.solo else (S('values0', 'dict'), 'name', 'any'),
                                         flags=o.flags | {'excl'})
            if not found:
                raise AnalysisBroken('a constructed schema stores its values in no dictionary')
            out.append((s, v))
        if not out:
            raise AnalysisBroken('no path constructs a schema successfully')
        return [(s, t[0]) for t, s in it.joined([((v,), s) for s, v in out])]

    def begin(self, st):
        """Switch from setting up to the analysed operation."""
        w = self.w
        w.setup = w.past = False
        w.pre_heap = frozenset(st.heap)
        st.ev = ()
        st.trace = None


def build_class(it, st, meta, name, bases, attrs, node=NODE):
    m = meta if meta is not None else H(type)
    c, e = it.class_lookup(m, '__new__', st) if m[0] == 'cls' else (None, None)
    if e is not None and e[0] == 'func':
        res = it.inline(st, ('fn', e[1].qual, None), None, (m, name, bases, attrs), {}, node)
    else:
        res = models.make_class(it, st, m, name, bases, attrs, node, {})
    c, e = it.class_lookup(m, '__init__', st) if m[0] == 'cls' else (None, None)
    if e is None or e[0] != 'func':
        return res
    out = []
    for s, v in res:
        if is_raise(v):
            out.append((s, v))
            continue
        with held(v):
            rs = it.inline(s, ('fn', e[1].qual, None), None, (v, name, bases, attrs), {}, node)
        for s2, r in rs:
            out.append((s2, r if is_raise(r) else v))
    return out
