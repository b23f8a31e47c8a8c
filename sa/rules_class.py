"""Rules about defining schema classes, binding and copying fields, validator registration, configuration."""
from .engine import C, H, NONE, TRUE, FALSE, Obj, S, is_raise
from .ops import (DFLT, DS, FMT, HOOKS, KS, LOAD, DUMP, NODE, NS, OpWorld, POST, PRE, RS, Setup, US, VS, WS, build_class,
                  hook)
from .scen import End, Scenario, _OnInstance, PROBE
from .rules_ops import reach
from .repo import AnalysisBroken
import collections.abc

LOAD2, DUMP2, OWN_REPR = hook('load2'), hook('dump2'), hook('own repr')
OWN_SLOTS = ('t', (C('extra'),))
NV, NR = S('y*', 'validator'), S('z*', 'validator')     # declared in a class body
N2, K2 = S('m*', 'name'), S('j*', 'key')
V2 = S('v2*')
UN = S('un*', 'name')                                         # no field is called so
V9 = S('v9*')                                             # assigned later on
XS = S('x*')
L1, L2 = S('L0*'), S('M*')
PV = S('p*', 'validator')                                # carries no marking of its own
VHOOKS = {NV: 'y*', NR: 'z*', PV: 'p*'}
VE_CLS = 'ValidationError'


class ClassWorld(OpWorld):
    """User code never fails here: what matters is which of it runs."""
    focus = OpWorld.focus | {N2, K2, NV, NR, PV}

    def __init__(self, repo):
        super().__init__(repo)
        self.vfield = {}

    def attr(self, it, st, v, name, node):
        if v in VHOOKS:
            if ('SA', v, name) in st.env:
                return None
            if name == '__validator_is_raw__' and v != PV:
                return [(st, C(v == NR))]
            if name == '__validator_field__' and v in self.vfield:
                return [(st, self.vfield[v])]
            if name == '__name__':
                return [(st, S(('nameof', v), 'str'))]
            return [it.raise_(st, AttributeError, node, name)]
        if v[0] in 'so' and v[-1] == 'optany' and name == '__validator_field__':
            return [it.raise_(st, AttributeError, node, name)]
        return super().attr(it, st, v, name, node)

    def decide_isinstance(self, it, st, v, cv):
        if v in VHOOKS:
            return cv in (H(object), H(collections.abc.Callable))
        return super().decide_isinstance(it, st, v, cv)

    def opaque_call(self, it, st, fv, args, kwargs, node):
        if fv in VHOOKS:
            return self.user(it, st, VHOOKS[fv], args, kwargs, node)
        return super().opaque_call(it, st, fv, args, kwargs, node)

    def describe(self, it, st, what, args, kwargs):
        if what == 'load2':
            what = 'load'
        if what in ('y*', 'z*', 'p*'):
            what = 'w*'
        return super().describe(it, st, what, args, kwargs)

    def outcomes(self, it, st, what, args, node):
        if what == 'load':
            return [('ret', L1)]
        if what == 'load2':
            return [('ret', L2)]
        if what == 'preprocess':
            return [('ret', args[0])]
        if what == 'format':
            return [('ret', S(('fmt-str', args[0] if args else C('?')), 'str'))]
        if what == 'default':
            return [('ret', S('G*'))]
        return [('ret', NONE)]


class _At:
    def __init__(self, it, tag):
        self.it, self.tag = it, tag

    def __enter__(self):
        self.saved = self.it.ctx
        self.it.ctx = ((self.tag,),)

    def __exit__(self, *a):
        self.it.ctx = self.saved


class Classes(Scenario):
    """A parent schema with field n* exists; something is done with classes and fields."""
    op = 'define'

    @classmethod
    def weight(cls, kw):
        return 2

    def build_with(self, known):
        self.su = su = self.make_setup()
        self.it, self.w = su.it, su.w
        self.w.others = 'fine'
        self.w.fmt = 'str'
        self.w.clobbered |= known
        for st, f, cls in su.inits:
            self.f, self.cls = f, cls
            self.w.user_cls = cls
            for a in (NS, KS):
                for b in (N2, K2, US, UN):
                    st.facts[('eq', a, b)] = st.facts[('eq', b, a)] = False
            st.facts[('eq', N2, UN)] = st.facts[('eq', UN, N2)] = False
            st.facts[('eq', N2, K2)] = st.facts[('eq', K2, N2)] = False
            for a in (NS, N2, UN):
                for b in ('__module__', '__qualname__', 'check', 'check_raw', 'Config', 'preprocess_data'):
                    st.facts[('eq', a, C(b))] = False
            for n in (N2, K2, US, UN):
                st.facts[('in', n, S('loadfields', 'dict'))] = False
                st.facts[('in', n, S('fields', 'dict'))] = False
            self.view().run(st.copy(), f, cls)
        if not self.views or not all(v.ends for v in self.views):
            raise AnalysisBroken(f'{self.name()}: no path ends')
        self.ends = [e for v in self.views for e in v.ends]

    def roles(self, st):
        return []           # defining is what changes definitions

    def make_setup(self):
        return Setup(self.repo, self.default, world=ClassWorld, solo=self.solo, required=False)

    # ---- building blocks
    def at(self, tag):
        """Objects made here are told apart from those made elsewhere."""
        return _At(self.it, tag)

    def field(self, st, key=None, **kw):
        """A field of another user class, with its own deserializer."""
        it = self.it
        cls = it.alloc(st, Obj('class', None, {'__name__': C('UserField2'), 'value_load': LOAD2, 'value_dump': DUMP2,
                                               'format_error': FMT}, strong=(self.w.field_cls,)), NODE, 'fieldclass2')
        args = {'required': FALSE}
        if key is not None:
            args['load_key'] = key
        args.update(kw)
        with self.at('field2'):
            res = it.call(st, cls, (), args, NODE)
        if any(is_raise(v) for _, v in res):
            raise AnalysisBroken('creating a field fails')
        for s, v in res:
            s.pins = s.pins + (v, cls)
        return res

    def plain(self, st):
        """A class that is no schema."""
        c = self.it.alloc(st, Obj('class', None, {'__name__': C('Mixin'), '__module__': C('user'), 'helper': S('helper*', 'callable')}), NODE, 'mixin')
        st.pins = st.pins + (c,)
        return c

    def subclass(self, st, bases, members, name='Child'):
        it = self.it
        attrs = it.alloc(st, Obj('dict', strong=((C('__module__'), C('user')), (C('__qualname__'), C(name))) + tuple(members)),
                         NODE, ('ns', name))
        with self.at('class ' + name):
            return build_class(it, st, it.metaclass(self.w.schema_cls), C(name), ('t', tuple(bases)), attrs)

    def construct(self, st, cls, entries, ignore=False):
        """End states of constructing an instance."""
        with self.probing():
            s = st.copy()
            s.ev = ()
            s.wev = frozenset()
            data = self.it.alloc(s, Obj('dict', strong=tuple(entries)), NODE, 'dmap')
            for _, x in entries:
                s.facts[('isnone', x)] = False
            self.w.user_cls = cls
            out = [End(self, s2, v) for s2, v in self.it.call(s, cls, (data,), {} if ignore is None else {'ignore_extra': C(ignore)}, NODE)]
            self.w.user_cls = self.cls
        if not out:
            raise AnalysisBroken(f'{self.name()}: constructing an instance has no end')
        return out


    def descriptor(self, st, cls, name):
        """What the attribute called name of a class is."""
        for c in self.it.mro(cls, st):
            if c[0] == 'r' and c[1] in st.heap and name in st.heap[c[1]].attrs:
                return st.heap[c[1]].attrs[name]
        return None


class Subclass(Classes):
    """class Child(Parent...) with the members the parameters say."""
    op = 'subclass'

    def run(self, st, f, cls):
        kind = self.p.get('kind')
        vf = self.p.get('vf')
        states = [(st, None)]
        if kind in ('own', 'override', 'own-first'):
            states = self.field(st, K2)
        elif kind == 'two-bases':
            # another schema, with a field of its own
            states = []
            for s, g in self.field(st, K2):
                for s2, q in self.subclass(s, (self.w.schema_cls,), ((N2, g),), 'Other'):
                    s2.pins = s2.pins + (q,)
                    states.append((s2, (g, q)))
        elif kind == 'diamond':
            # both bases declare n*
            states = []
            for s, g in self.field(st, K2):
                for s2, q in self.subclass(s, (self.w.schema_cls,), ((NS, g),), 'Other'):
                    s2.pins = s2.pins + (q,)
                    states.append((s2, (g, q)))
        elif kind == 'shared-root':
            # class Other(Parent) overrides n*, class Third(Parent) does not; the child has both
            states = []
            for s, g in self.field(st, K2):
                for s2, q in self.subclass(s, (cls,), ((NS, g),), 'Other'):
                    for s3, t in self.subclass(s2, (cls,), (), 'Third'):
                        s3.pins = s3.pins + (q, t)
                        states.append((s3, (g, q, t)))
        elif kind == 'mixin':
            states = [(st, self.plain(st))]
        for s, g in states:
            members, bases = [], (cls,)
            if kind in ('shared-root', 'mixin'):
                bases = (g[1:] if kind == 'shared-root' else (g, cls))[::-1 if self.p.get('swap') else 1]
            elif kind == 'own':
                members = [(N2, g)]
            elif kind == 'override':
                members = [(NS, g)]
            elif kind in ('two-bases', 'diamond'):
                bases = (cls, g[1])
                if self.p.get('swap'):
                    bases = (g[1], cls)
            self.w.vfield = {}
            if vf:
                target = {'name': NS, 'field': f, 'own-name': N2, 'own-field': g, 'unknown': UN}[vf]
                self.w.vfield = {NV: target, NR: target}
                extra = [(C('check'), NV), (C('check_raw'), NR)]
                members = extra + members if self.p.get('first') else members + extra
            v = self.view()
            v.protected = reach(s, [b[1] for b in bases if b[0] == 'r'])
            v.begin(s)
            v.finish(v.subclass(s, bases, members))


class Body(Classes):
    """A schema whose own body declares validators for its own field."""
    op = 'body'

    def run(self, st, f, cls):
        for s, g in self.field(st, K2):
            target = N2 if self.p['by'] == 'name' else g
            self.w.vfield = {NV: target, NR: target}
            extra = [(C('check'), NV), (C('check_raw'), NR)]
            m = extra + [(N2, g)] if self.p.get('first') else [(N2, g)] + extra
            v = self.view()
            v.protected = set()
            v.begin(s)
            v.finish(v.subclass(s, (self.w.schema_cls,), m))


class Bind(Classes):
    """The field object already bound to n* of one schema is declared again."""
    op = 'bind'

    def run(self, st, f, cls):
        how = self.p['how']
        bases = (self.w.schema_cls,) if how == 'other-class' else (cls,)
        v = self.view()
        v.begin(st)
        if how == 'twice':
            for s, g in self.field(st, K2):
                v.g = g
                v.finish(v.subclass(s, (self.w.schema_cls,), ((N2, g), (S('q*', 'name'), g))))
            return
        v.finish(v.subclass(st, bases, ((N2, f),)))


class CopyField(Classes):
    """field.copy(), and then a change to the copy or to the original."""
    op = 'copy-field'

    def run(self, st, f, cls):
        states = [(st, f)]
        if not self.p.get('bound', True):
            extras = self.it.alloc(st, Obj('dict', strong=((C('unit'), S('extra*')),)), NODE, 'extras')
            st.pins = st.pins + (extras,)
            states = self.field(st, K2, none=S('f2.none', 'bool'), frozen=S('f2.frozen', 'bool'), extras=extras, default=S('f2.default', 'plain'),
                                required=S('f2.required', 'bool'), dump_key=DS)
        elif self.p.get('keyless'):
            # declared elsewhere under a name of its own, which gives it its keys
            states = [(s2, g) for s, g in self.field(st)
                      for s2, k in (self.subclass(s, (self.w.schema_cls,), ((NS, g),), 'User3') if self.p['keyless'] == 'bound'
                                    else [(s, NONE)]) if not is_raise(k)]
        for s, g in states:
            for m, args, kw in self.p.get('pre', ()):
                s = only(self, call(self, s, g, m, args, kw))
            v = self.view()
            v.g = g
            v.begin(s)
            v.finish(call(self, s, g, 'copy'))


class Validators(Classes):
    """Registering, removing and clearing validators of a field."""
    op = 'validators'

    def run(self, st, f, cls):
        v = self.view()
        v.begin(st)
        v.finish([(st, f)])


class Config(Classes):
    """Which configuration governs a class, and what it adds to the class."""
    op = 'config'

    def config_class(self, st, pre):
        return self.it.alloc(st, Obj('class', None, {
            '__name__': C('Config' + pre), 'frozen': S(pre + '.frozen', 'bool'), 'ignore_extra': S(pre + '.ignore_extra', 'bool'),
            'add_repr': S(pre + '.add_repr', 'bool'), 'slotted': S(pre + '.slotted', 'bool')},
            strong=(('cls', self.repo.require_class('oblate.configs', 'SchemaConfig')),)), NODE, ('cfgclass', pre))

    def run(self, st, f, cls):
        decl = []
        inner = self.it.alloc(st, Obj('class', None, {'__name__': C('Inner'), 'ignore_extra': TRUE, 'slotted': TRUE,
                                                      'add_repr': TRUE, 'frozen': TRUE}), NODE, 'inner')
        # a nested class that is no configuration decides nothing
        decl.append((C('Inner'), inner))
        if self.p.get('slots'):
            decl.append((C('__slots__'), OWN_SLOTS))
        if self.p.get('repr'):
            decl.append((C('__repr__'), OWN_REPR))
        src = self.p['src']
        st.pins = st.pins + (inner,)
        states = [(st, cls, None)]
        if src != 'own':
            pass
        if src in ('parent', 'grandparent', 'own-over-parent'):
            c = self.config_class(st, 'P')
            states = [(s, p, c) for s, p in self.subclass(st, (self.w.schema_cls,), ((C('Config'), c),), 'Parent')]
            if src == 'grandparent':
                states = [(s2, q, c) for s, p, c in states for s2, q in self.subclass(s, (p,), (), 'Middle')]
        for s, base, c in states:
            if is_raise(base):
                raise AnalysisBroken('creating a schema class fails')
            s.pins = s.pins + (base,)
            bases = (base,)
            members = list(decl)
            if src in ('own', 'own-over-parent'):
                members.append((C('Config'), self.config_class(s, 'Q')))
            if src in ('own', 'default'):
                bases = (self.w.schema_cls,)
            if self.p.get('mixin'):
                bases = (self.plain(s),) + bases if self.p['mixin'] == 'first' else bases + (self.plain(s),)
            if self.p.get('first'):
                members.reverse()
            v = self.view()
            v.begin(s)
            v.finish(v.subclass(s, bases, members))


class GlobalOption(Classes):
    """The options of the global configuration object."""
    op = 'global-config'

    def run(self, st, f, cls):
        it = self.it
        base = self.w.ve_cls
        for n in range(self.p.get('deep', 0)):
            base = it.alloc(st, Obj('class', None, {'__name__': C('BaseError')}, strong=(base,)), NODE, ('base', n))
            st.pins = st.pins + (base,)
        self.mine = it.alloc(st, Obj('class', None, {'__name__': C('MyError')}, strong=(base,)), NODE, 'mine')
        self.alien = it.alloc(st, Obj('class', None, {'__name__': C('Alien')}, strong=(H(Exception),)), NODE, 'alien')
        st.pins = st.pins + (self.mine, self.alien)
        gc = ('cls', self.repo.require_class('oblate.configs', 'GlobalConfig'))
        kw = {}
        if self.p.get('ctor'):
            kw['validation_error_cls'] = {'mine': self.mine, 'alien': self.alien, 'none': NONE}[self.p['ctor']]
        with self.at('first'):
            res = it.call(st, gc, (), {} if not self.p.get('ctor') else kw, NODE)
        for s, g in res:
            v = self.view()
            if self.p.get('ctor'):
                v.begin(s)
                v.finish([(s, g)])
                continue
            if is_raise(g):
                raise AnalysisBroken('the default configuration cannot be created')
            s.pins = s.pins + (g,)
            with self.at('second'):
                for s2, h in it.call(s, gc, (), {}, NODE):
                    s2.pins = s2.pins + (h,)
                    w = v.view()
                    w.g, w.h = g, h
                    states = [s2]
                    if self.p.get('before'):
                        states = [x for x, r in it.set_attr(s2, g, 'validation_error_cls', self.mine, NODE) if r is None]
                    val = {'mine': self.mine, 'base': self.w.ve_cls, 'alien': self.alien, 'none': NONE, 'text': C('x')}[self.p['value']]
                    for s3 in states:
                        w.begin(s3)
                        w.finish([(x, r or NONE) for x, r in it.set_attr(s3, g, 'validation_error_cls', val, NODE)])


def call(sc, st, v, name, args=(), kw=None):
    """All (state, result) of calling a public method as part of the scenario."""
    out = []
    for s, m in sc.it.get_attr(st.copy(), v, name, NODE):
        if is_raise(m):
            out.append((s, m))
        else:
            out.extend(sc.it.call(s, m, tuple(args), dict(kw or {}), NODE))
    return out


def only(sc, res):
    if len(res) != 1 or is_raise(res[0][1]):
        raise AnalysisBroken(f'{sc.name()}: an operation the scenario starts with fails')
    return res[0][0]


def probe(sc, st, v, name, args=(), kw=None):
    with sc.probing():
        return call(sc, st, v, name, args, kw)


def listed(sc, st, f, **kw):
    """What walk_validators yields (None: not a definite sequence)."""
    outs = set()
    with sc.probing():
        for s, r in call(sc, st, f, 'walk_validators', (), kw):
            if is_raise(r):
                return None
            for s2, l in sc.it.call(s, H(list), (r,), {}, NODE):
                if is_raise(l) or l[0] != 'r':
                    return None
                o = s2.heap[l[1]]
                if o.weak or o.others or o.opt:
                    return None
                outs.add(tuple(o.strong))
    return list(outs.pop()) if len(outs) == 1 else None


def ran(e, what):
    return [x for x in e.ev if x[1] == what]


def values(sc, ends, name, want):
    """Construction succeeds (unless another field objects), and the field has the wanted value."""
    ok = [x for x in ends if x.kind == 'ok']
    return bool(ok) and all(x.value(x.val, name) == {want} for x in ok) and \
        (not sc.solo or len(ok) == len(ends)) and all(x.kind in ('ok', 'VE') for x in ends)


def s17(R, sc):
    kind, vf = sc.p.get('kind'), sc.p.get('vf')
    for e in sc.ends:
        if vf == 'unknown':
            R.need(e.kind == 'TypeError', sc, e, 'unknown-field-refused',
                   f'declaring a validator for something that is no field of the class ends with {e.kind}')
            continue
        if not R.need(e.kind == 'ok', sc, e, 'definable', f'defining the class ends with {e.kind}'):
            continue
        child, st = e.val, e.st
        # ---- the child
        if sc.op == 'body':
            ends = sc.construct(st, child, ((K2, V2),))
            R.need(values(sc, ends, N2, L2), sc, e, 'own-field', 'a field of the class body is not a field of it')
            registered(R, sc, e, ends, V2, L2)
            attribute(R, sc, e, ends, child, N2, L2, True)
            continue
        if kind in (None, 'own', 'two-bases', 'mixin') or kind == 'diamond' and not sc.p.get('swap'):
            ends = sc.construct(st, child, ((KS, VS),))
            R.need(values(sc, ends, NS, L1), sc, e, 'inherits-fields', 'a field of the parent schema is missing')
            R.need(all(ran(x, 'w*') and ran(x, 'r*') for x in ends), sc, e, 'inherits-validators',
                   'a validator of the inherited field does not run')
            if vf in ('name', 'field'):
                registered(R, sc, e, ends, VS, L1)
            attribute(R, sc, e, ends, child, NS, L1, vf in ('name', 'field'))
        if kind in ('own', 'two-bases'):
            ends = sc.construct(st, child, ((K2, V2),))
            R.need(values(sc, ends, N2, L2), sc, e, 'own-field',
                   'a field of its own (or of another base) is missing')
            if vf in ('own-name', 'own-field'):
                registered(R, sc, e, ends, V2, L2)
            attribute(R, sc, e, ends, child, N2, L2, vf in ('own-name', 'own-field'))
        if kind in ('override', 'shared-root') or kind == 'diamond' and sc.p.get('swap'):
            ends = sc.construct(st, child, ((K2, V2),))
            R.need(values(sc, ends, NS, L2), sc, e, 'override-wins', 'an overriding field is not used')
            R.need(not any(ran(x, 'load') for x in ends), sc, e, 'override-wins', 'the overridden field still loads')
            if vf == 'name' or vf == 'own-field':
                registered(R, sc, e, ends, V2, L2)
            attribute(R, sc, e, ends, child, NS, L2, vf == 'name' or vf == 'own-field')
            ends = sc.construct(st, child, ((KS, VS),))
            R.need(ends and all(x.kind == 'VE' for x in ends) and not any(ran(x, 'load') for x in ends), sc, e,
                   'override-removes-key', 'the overridden field is still reachable by its own load key')
        if kind == 'diamond' and not sc.p.get('swap'):
            ends = sc.construct(st, child, ((K2, V2),))
            R.need(ends and all(x.kind == 'VE' for x in ends), sc, e, 'override-removes-key',
                   'a field hidden by the resolution order is still reachable by its load key')
        # ---- the parent
        for loc, target, what, s in sc.mutations:
            R.need(target[0] == 'r' and target[1] not in sc.protected, sc, None, 'parent-untouched', f'{loc}: {what} of an object of the parent while a subclass is defined')
        ends = sc.construct(st, sc.cls, ((KS, VS),))
        R.need(values(sc, ends, NS, L1), sc, e, 'parent-keeps-field', 'the parent loses its field')
        R.need(not any(ran(x, 'y*') or ran(x, 'z*') or ran(x, 'load2') for x in ends), sc, e, 'parent-untouched',
               'a validator or field of the subclass takes effect in the parent')
        R.need(all(len(ran(x, 'w*')) == 1 == len(ran(x, 'r*')) for x in ends), sc, e, 'parent-untouched',
               'the validators of the parent change')
        attribute(R, sc, e, ends, sc.cls, NS, L1)
        ends = sc.construct(st, sc.cls, ((K2, V2),))
        R.need(ends and all(x.kind == 'VE' for x in ends), sc, e, 'parent-untouched', 'a load key of the subclass is known to the parent')


def registered(R, sc, e, ends, raw, final):
    """The declared validators ran once each, on the right value."""
    for x in ends:
        a, b = ran(x, 'y*'), ran(x, 'z*')
        R.need(len(a) == 1 and a[0][4] == final, sc, e, 'body-validator-applies',
               f'a validator declared in the class body runs {len(a)} times or on the wrong value')
        R.need(len(b) == 1 and b[0][4] == raw, sc, e, 'body-raw-validator-applies',
               f'a raw validator declared in the class body runs {len(b)} times or on the wrong value')


def attribute(R, sc, e, ends, child, name, final, vf=False):
    """The attribute called name reads the value of the field, and assigning it sets it, by the rules of this class."""
    d = sc.descriptor(e.st, child, name)
    if not R.need(d is not None, sc, e, 'field-attribute', 'a field is no attribute of the class'):
        return
    with sc.probing():
        for x in ends:
            if x.kind != 'ok':
                continue
            got = {v if not is_raise(v) else C('raises') for _, v in call(sc, x.st, d, '__get__', (x.val, child))}
            R.need(got == {final}, sc, e, 'field-attribute',
                   'reading the attribute of a field on an instance does not give the value of the field')
            s = x.st.copy()
            s.ev = ()
            s.facts[('isnone', V9)] = False
            res = [End(sc, a, r) for a, r in call(sc, s, d, '__set__', (x.val, V9))]
            R.need(any(r.kind == 'ok' and r.value(x.val, name) == {final} for r in res), sc, e, 'field-attribute',
                   'assigning the attribute of a field on an instance does not set the field')
            if vf:
                registered(R, sc, e, [r for r in res if r.kind != 'FrozenError'], V9, final)
            else:
                R.need(not any(ran(r, 'y*') or ran(r, 'z*') for r in res), sc, e, 'field-attribute',
                       'assigning an attribute runs validators of another class')


# ------------------------------------------------------------------------ S18
OPTIONS = ('none', 'frozen', 'required', 'default', 'load_key', 'dump_key', 'extras')
VS_OPS = {'add': ('add_validator', (PV,), {}), 'add-raw': ('add_validator', (PV,), {'raw': TRUE}),
          'add-marked': ('add_validator', (NV,), {}), 'add-marked-raw': ('add_validator', (NR,), {}),
          'remove': ('remove_validator', (WS,), {}), 'remove-raw': ('remove_validator', (RS,), {}),
          'clear': ('clear_validators', (), {}), 'clear-raw': ('clear_validators', (), {'raw': TRUE}),
          'clear-normal': ('clear_validators', (), {'raw': FALSE})}


def s18(R, sc):
    for e in sc.ends:
        st = e.st
        if sc.op == 'bind':
            R.need(e.kind == 'RuntimeError', sc, e, 'bound-once', f'binding a field a second time ends with {e.kind}')
            if sc.p['how'] == 'twice':
                continue
            R.need(e.read(sc.f, 'name') == NS and e.read(sc.f, 'schema') == sc.cls, sc, e, 'binding-kept',
                   'a refused binding changes the name or the schema of the field')
            ends = sc.construct(st, sc.cls, ((KS, VS),))
            R.need(values(sc, ends, NS, L1), sc, e, 'binding-kept', 'the field no longer works in its schema')
            continue
        if not R.need(e.kind == 'ok' and e.val[0] == 'r' and e.val != sc.g, sc, e, 'copy-is-new',
                      f'copying a field ends with {e.kind} or gives the same object'):
            continue
        f, c = sc.g, e.val
        R.need(st.heap[c[1]].cls == st.heap[f[1]].cls, sc, e, 'same-kind', 'the copy is of another class')
        for a in OPTIONS:
            if sc.p.get('keyless') and a.endswith('_key'):
                continue
            x, y = e.read(f, a), e.read(c, a)
            R.need(x is not None and (x == y or a == 'extras' and same_dict(st, x, y)), sc, e, 'same-options', f'the copy differs in {a}')
        x, y = ({r for _, r in probe(sc, st, g, 'has_default')} for g in (f, c))
        R.need(x == y, sc, e, 'same-options', 'only one of copy and original has a default')
        for kw in ({}, {'raw': TRUE}, {'raw': FALSE}):
            R.need(listed(sc, st, f, **kw) is not None and listed(sc, st, f, **kw) == listed(sc, st, c, **kw), sc, e,
                   'same-validators', 'the copy has other validators')
        # unbound: it has no name or schema, can be declared elsewhere, and takes its name from there
        for a in ('name', 'schema'):
            with sc.probing():
                res = sc.it.get_attr(st.copy(), c, a, NODE)
            R.need(res and all(End(sc, s, v).kind == 'RuntimeError' for s, v in res), sc, e, 'copy-unbound',
                   f'the copy has a {a} before it is declared anywhere')
        with sc.probing():
            res = sc.subclass(st.copy(), (sc.w.schema_cls,), ((N2, c),), 'User2')
        for s, k in res:
            ok = not is_raise(k)
            R.need(ok, sc, e, 'copy-unbound', 'the copy cannot be declared in another schema')
            if not ok:
                continue
            x = End(sc, s, c)
            R.need(x.read(c, 'name') == N2, sc, e, 'copy-unbound', 'the copy keeps the name of the original')
            if sc.p.get('keyless'):
                R.need(x.read(c, 'load_key') == N2 == x.read(c, 'dump_key'), sc, e, 'copy-unbound',
                       'the keys of the copy are not taken from its own name')
            if sc.p.get('bound', True) and not sc.p.get('keyless'):
                R.need(x.read(f, 'name') == NS, sc, e, 'original-keeps-binding', 'binding the copy renames the original')
                ends = sc.construct(s, sc.cls, ((KS, VS),))
                R.need(values(sc, ends, NS, L1), sc, e, 'original-keeps-binding', 'the original no longer works')
        # independence
        for one, other in ((f, c), (c, f)):
            before = [listed(sc, st, other, **kw) for kw in ({}, {'raw': TRUE}, {'raw': FALSE})]
            mine = listed(sc, st, one)
            for nm, (m, args, kw) in VS_OPS.items():
                for s, r in probe(sc, st, one, m, args, kw):
                    if not R.need(not is_raise(r), sc, e, 'independent', f'{m} fails on a copied field'):
                        continue
                    after = [listed(sc, s, other, **k) for k in ({}, {'raw': TRUE}, {'raw': FALSE})]
                    R.need(before == after and None not in after, sc, e, 'independent',
                           f'{nm} on the {"original" if one == f else "copy"} changes the validators of the other')
                    if nm.startswith('add'):
                        R.need(sorted(listed(sc, s, one) or ()) == sorted(mine + [args[0]]), sc, e, 'independent',
                               f'{nm} does not register the validator')


def same_dict(st, x, y):
    if x[0] != 'r' or y[0] != 'r':
        return False
    a, b = st.heap[x[1]], st.heap[y[1]]
    return a.kind == b.kind and a.strong == b.strong and a.others == b.others and a.weak == b.weak


# ------------------------------------------------------------------------ V03
def v03(R, sc):
    for e in sc.ends:
        if sc.op == 'body':
            if not R.need(e.kind == 'ok', sc, e, 'definable', f'defining the class ends with {e.kind}'):
                continue
            registered(R, sc, e, sc.construct(e.st, e.val, ((K2, V2),)), V2, L2)
            continue
        if sc.op == 'decorated':
            decorated(R, sc, e)
            continue
        f, st = sc.f, e.st
        allv, rawv, nrm = (listed(sc, st, f, **k) for k in ({}, {'raw': TRUE}, {'raw': FALSE}))
        R.need(rawv == [RS] and nrm == [WS] and allv is not None and sorted(allv) == sorted([WS, RS]), sc, e, 'created-with',
               'the validators a field is created with are not listed as they are marked')
        for v, marked in ((PV, None), (NV, False), (NR, True)):
            for arg in (None, True, False):
                kw = {} if arg is None else {'raw': C(arg)}
                raw = marked if marked is not None else bool(arg)
                what = {PV: 'an unmarked validator', NV: 'a validator marked normal', NR: 'a validator marked raw'}[v] + \
                    ('' if arg is None else f' with raw={arg}')
                for s, r in probe(sc, st, f, 'add_validator', (v,), kw):
                    if not R.need(not is_raise(r), sc, e, 'added', f'adding {what} fails'):
                        continue
                    want = {True: [RS] + [v] * raw, False: [WS] + [v] * (not raw)}
                    for k in (True, False):
                        R.need(listed(sc, s, f, raw=C(k)) == want[k], sc, e, 'added',
                               f'after adding {what} the {"raw" if k else "normal"} validators are {names(listed(sc, s, f, raw=C(k)))}')
                    R.need(sorted(listed(sc, s, f) or ()) == sorted(want[True] + want[False]), sc, e, 'listed-all',
                           f'listing without a choice misses something after adding {what}')
                    ends = sc.construct(s, sc.cls, ((KS, VS),))
                    for x in ends:
                        got = ran(x, VHOOKS[v])
                        R.need(len(got) == 1 and got[0][4] == (VS if raw else L1), sc, e, 'runs-as-registered',
                               f'{what} runs {len(got)} times or on the wrong value')
                    # removing with the same and with the opposite choice
                    for arg2 in (None, True, False):
                        kw2 = {} if arg2 is None else {'raw': C(arg2)}
                        raw2 = marked if marked is not None else bool(arg2)
                        for s2, r2 in probe(sc, s, f, 'remove_validator', (v,), kw2):
                            if not R.need(not is_raise(r2), sc, e, 'removed', f'removing {what} fails'):
                                continue
                            w2 = {k: [x for x in want[k] if not (x == v and raw2 == k)] for k in want}
                            for k in (True, False):
                                R.need(listed(sc, s2, f, raw=C(k)) == w2[k], sc, e, 'removed',
                                       f'after removing {what} (raw={arg2}) the {"raw" if k else "normal"} validators are '
                                       f'{names(listed(sc, s2, f, raw=C(k)))}')
                    for arg2 in (None, True, False):
                        kw2 = {} if arg2 is None else {'raw': C(arg2)}
                        for s2, r2 in probe(sc, s, f, 'clear_validators', (), kw2):
                            if not R.need(not is_raise(r2), sc, e, 'cleared', 'clearing validators fails'):
                                continue
                            for k in (True, False):
                                R.need(listed(sc, s2, f, raw=C(k)) == ([] if arg2 is None or arg2 == k else want[k]), sc, e, 'cleared',
                                       f'after clearing with raw={arg2} the {"raw" if k else "normal"} validators are '
                                       f'{names(listed(sc, s2, f, raw=C(k)))}')
                for s, r in probe(sc, st, f, 'remove_validator', (v,), kw):
                    R.need(not is_raise(r) and listed(sc, s, f) == allv, sc, e, 'remove-unregistered',
                           f'removing {what} that is not registered is no no-op')


def names(vs):
    t = {WS: 'the original normal one', RS: 'the original raw one', PV: 'it', NV: 'it', NR: 'it'}
    return 'unknown' if vs is None else '[' + ', '.join(t.get(v, '?') for v in vs) + ']'


class Decorated(Classes):
    """A function declared as a validator with the decorator of oblate.validate, in a class body."""
    op = 'decorated'

    def run(self, st, f, cls):
        it = self.it
        for s, g in self.field(st, K2):
            target = N2 if self.p['by'] == 'name' else g
            kw = {} if self.p['raw'] is None else {'raw': C(self.p['raw'])}
            v = self.view()
            v.begin(s)
            for s1, dec in it.global_value(s, 'oblate.validate', 'field', NODE):
                for s2, d in it.call(s1, dec, (target,), kw, NODE):
                    for s3, fn in [(s2, d)] if is_raise(d) else it.call(s2, d, (PV,), {}, NODE):
                        if is_raise(fn):
                            v.finish([(s3, fn)])
                            continue
                        m = [(N2, g), (C('check'), fn)]
                        if self.p.get('first'):
                            m.reverse()
                        v.finish(v.subclass(s3, (self.w.schema_cls,), m))


def decorated(R, sc, e):
    if not R.need(e.kind == 'ok', sc, e, 'decorated', f'declaring a validator with the decorator ends with {e.kind}'):
        return
    for x in sc.construct(e.st, e.val, ((K2, V2),)):
        got = ran(x, 'p*')
        R.need(x.kind == 'ok' and len(got) == 1 and got[0][4] == (V2 if sc.p['raw'] else L2), sc, e, 'decorated',
               f'a validator declared with the decorator (raw={sc.p["raw"]}) runs {len(got)} times or on the wrong value')


# ------------------------------------------------------------------------ S21
def s21(R, sc):
    src = sc.p['src']
    pre = {'own': 'Q', 'own-over-parent': 'Q', 'parent': 'P', 'grandparent': 'P', 'default': None}[src]
    for e in sc.ends:
        if not R.need(e.kind == 'ok', sc, e, 'definable', f'defining the class ends with {e.kind}'):
            continue

        def flag(x, name):
            return x.truth(S(f'{pre}.{name}', 'bool')) if pre else dict(
                slotted=True, add_repr=True, ignore_extra=False, frozen=False)[name]

        def others(x, name):
            return [k for k in x.st.facts if k[0] in ('truthy', 'isnone') and k[1][0] == 's' and k[1][1][0].endswith('.' + name)
                    and k[1] != S(f'{pre}.{name}', 'bool')]
        at = e.st.heap[e.val[1]].attrs
        if sc.p.get('slots'):
            R.need(at.get('__slots__') == OWN_SLOTS, sc, e, 'own-slots-kept', 'declared slots are replaced')
        else:
            fl = flag(e, 'slotted')
            R.need(('__slots__' in at) == (fl is True) and fl is not None, sc, e, 'slots-iff-slotted',
                   f'automatic slots are {"" if "__slots__" in at else "not "}added where the governing configuration says slotted={fl}')
            if '__slots__' in at:
                R.need(at['__slots__'] == ('t', ()) or empty(e.st, at['__slots__']), sc, e, 'slots-iff-slotted', 'the automatic slots are not empty')
        if sc.p.get('repr'):
            R.need(at.get('__repr__') == OWN_REPR, sc, e, 'own-repr-kept', 'a declared __repr__ is replaced')
        else:
            fl = flag(e, 'add_repr')
            R.need(('__repr__' in at) == (fl is True) and fl is not None, sc, e, 'repr-iff-asked',
                   f'the automatic repr is {"" if "__repr__" in at else "not "}added where the governing configuration says add_repr={fl}')
        # the options take effect
        for x in sc.construct(e.st, e.val, ((US, XS),), ignore=None):
            fl = flag(x, 'ignore_extra')
            R.need(fl is not None and not others(x, 'ignore_extra') and x.kind == ('ok' if fl else 'VE'), sc, e, 'governing-options',
                   f'an unknown key ends with {x.kind} where the governing configuration says ignore_extra={fl}')
        for x in sc.construct(e.st, e.val, ((US, XS),), ignore=True):
            if not R.need(x.kind == 'ok', sc, e, 'constructible', f'construction ends with {x.kind}'):
                continue
            with sc.probing():
                data = sc.it.alloc(x.st, Obj('dict'), NODE, 'upd')
                res = [End(sc, s, r) for s, r in call(sc, x.st, x.val, 'update', (data,))]
            for y in res:
                fl = flag(y, 'frozen')
                R.need(fl is not None and not others(y, 'frozen') and y.kind == ('FrozenError' if fl else 'ok'), sc, e, 'governing-options',
                       f'an update ends with {y.kind} where the governing configuration says frozen={fl}')


def empty(st, v):
    return v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind in ('list', 'set', 'dict') and \
        not (st.heap[v[1]].strong or st.heap[v[1]].weak or st.heap[v[1]].others)


# ------------------------------------------------------------------------ S13
def s13g(R, sc):
    ve = sc.w.ve_cls
    for e in sc.ends:
        if sc.p.get('ctor'):
            if sc.p['ctor'] == 'mine':
                R.need(e.kind == 'ok' and e.read(e.val, 'validation_error_cls') == sc.mine, sc, e, 'option-stored',
                       'an error class given to the configuration is not its option')
            else:
                R.need(e.exc is not None, sc, e, 'option-refused', 'something that is no validation error class is accepted at creation')
            continue
        want = sc.mine if sc.p.get('before') else ve
        now = e.read(sc.g, 'validation_error_cls')
        if sc.p['value'] == 'mine':
            R.need(e.exc is None and now == sc.mine, sc, e, 'option-stored', 'a validation error class that is set is not the option afterwards')
        elif sc.p['value'] == 'base':
            R.need(e.exc is None and now == ve, sc, e, 'option-stored', 'the option cannot be set back')
        else:
            R.need(e.exc is not None, sc, e, 'option-refused', 'something that is no validation error class is accepted')
            R.need(now == want, sc, e, 'refusal-changes-nothing', 'a refused option changes the configuration')
        R.need(e.read(sc.h, 'validation_error_cls') == ve, sc, e, 'own-options', 'another configuration object changes')


SUB = [dict(), dict(kind='own'), dict(kind='override'), dict(kind='two-bases'), dict(kind='diamond'),
       dict(kind='two-bases', swap=True), dict(kind='diamond', swap=True),
       dict(kind='shared-root'), dict(kind='shared-root', swap=True), dict(kind='mixin'), dict(kind='mixin', swap=True), dict(kind='mixin', vf='name'),
       dict(vf='name'), dict(vf='field'), dict(kind='own', vf='name'), dict(kind='own', vf='own-name'),
       dict(kind='own', vf='own-field'), dict(kind='own', vf='own-name', first=True), dict(kind='override', vf='name'), dict(vf='unknown'), dict(kind='own', vf='unknown')]

EXTRA = {
    'S17': (s17, [(Subclass, dict(k, solo=s)) for k in SUB for s in (True, False)] +
            [(Body, dict(by=b, first=o)) for b in ('name', 'field') for o in (False, True)]),
    'S18': (s18, [(Bind, dict(how=h, solo=True)) for h in ('other-class', 'subclass', 'twice')] +
            [(CopyField, dict(k, solo=True)) for k in ({}, dict(bound=False), dict(keyless=True), dict(keyless='bound'))]),
    'V03': (v03, [(Validators, dict(solo=True))] + [(Body, dict(by=b, first=o, solo=True)) for b in ('name', 'field') for o in (False, True)] +
            [(Decorated, dict(by=b, raw=r, first=o, solo=True)) for b in ('name', 'field') for r in (None, True, False) for o in (False, True)]),
    'S21': (s21, [(Config, dict(src=c, solo=True, **k)) for c in ('own', 'own-over-parent', 'parent', 'grandparent', 'default')
                  for k in ({}, dict(slots=True), dict(repr=True))] + [(Config, dict(src='own', first=True, solo=True))] +
            [(Config, dict(src=c, mixin=m, solo=True)) for c in ('parent', 'own', 'default') for m in ('first', 'last')]),
    'S13': (s13g, [(GlobalOption, dict(solo=True, **k)) for k in
                   (dict(ctor='mine'), dict(ctor='alien'), dict(value='mine'), dict(value='alien'), dict(value='none'),
                    dict(value='text'), dict(value='alien', before=True), dict(value='base', before=True), dict(value='mine', before=True),
                    dict(ctor='mine', deep=2), dict(value='mine', deep=1), dict(value='mine', deep=3))]),
}
EXPLAIN = {
    'S17': 'Every way a subclass definition can end, and what parent and child then do with data.',
    'S18': 'Every way a second declaration of a field can end; the object graph of a copied field, and changes to either.',
    'V03': 'Every combination of marking, raw argument and operation on the validators of a field, and what then runs.',
    'S21': 'The configuration governing a class for every place one can be declared, and what the class is given.',
    'S13': 'Every value the option can be given.',
}
ASSUME = ['user code is opaque; class bodies hold the members the scenario names and any others']


def _jobs(pid):
    from .registry import Job
    fn, specs = EXTRA[pid]
    return lambda tier: [Job(c, k, fn) for c, k in specs]


TABLE = {p: dict(jobs=_jobs(p), explain=EXPLAIN[p], floor=5, assume=ASSUME, mods=[EXTRA[p][0], registered, decorated]) for p in EXTRA}
