"""Scenarios: one public operation analysed over all inputs it may be given."""
import copy

from .engine import C, H, NONE, TRUE, FALSE, S, has_old, is_raise, _EMPTY
from .ops import (NS, KS, DS, US, VS, V0, XS, WS, RS, DFLT, VE, VE_STALE, NODE, LIVE, Setup, mentions)
from .repo import AnalysisBroken

NO = S('o*', 'name')
PROBE = S('probe-default', 'plain')
ARG = S('arg.ignore_extra', 'bool')


class End:
    """A state in which the analysed call has returned or raised."""

    def __init__(self, sc, st, v):
        self.sc = sc
        self.st = st
        self.exc = v[1] if is_raise(v) else None
        self.val = None if is_raise(v) else v
        self.ev = [e for e in st.ev if e[0] == 'u']
        self.kind = self._kind()

    def _kind(self):
        if self.exc is None:
            return 'ok'
        o = self.st.heap.get(self.exc[1]) if self.exc[0] == 'r' else None
        if o is None:
            return 'exc ' + str(self.exc[:2])
        if 've' in o.flags:
            return 'VE' if o.cls == VE else 'VE-stale'
        if o.cls == ('other',):
            return 'Other'
        nm = self.sc.it.cls_name(o.cls, self.st) if o.cls[0] in ('cls', 'H') else str(o.cls)
        return nm

    # ---- events of the focus field
    def events(self, *what):
        return [e for e in self.ev if e[1] in what]

    def fails(self, *what):
        return [e for e in self.ev if e[1] in what and e[2][2] in ('std', 'FieldError')]

    def wev(self, *what):
        return [e for e in self.st.wev if e[0] == 'u' and e[1] in what]

    # ---- facts
    def truth(self, v):
        if v[0] == 'c':
            return bool(v[2])
        return self.st.facts.get(('truthy', v))

    def isnone(self, v):
        if v[0] == 'c':
            return v[2] is None
        return self.st.facts.get(('isnone', v))

    # ---- reading through the public interface
    def read(self, v, name):
        """Value of attribute v.name, or None when it is not single valued."""
        sc = self.sc
        with sc.probing():
            r = sc.it.get_attr(self.st.copy(), v, name, NODE)
        if len(r) == 1 and not is_raise(r[0][1]):
            return r[0][1]
        return None

    def call(self, v, name, args):
        """All (state, result) of calling a public method in this state."""
        sc = self.sc
        with sc.probing():
            out = []
            for s, m in sc.it.get_attr(self.st.copy(), v, name, NODE):
                if is_raise(m):
                    out.append((s, m))
                else:
                    out.extend(sc.it.call(s, m, args, {}, NODE))
        return out

    def value(self, inst=None, name=NS):
        """Set of values get_value_for(name, PROBE) may return."""
        return {v if not is_raise(v) else C('raises') for _, v in self.call(inst or self.sc.inst or self.val,
                                                                           'get_value_for', (name, PROBE))}

    # ---- the raised validation error
    def errors(self):
        """(list of (ref, key, message, schema, context) strong errors, weak?)"""
        o = self.st.heap[self.exc[1]]
        snap = o.attrs.get('!errors')
        if snap is None or snap[1] not in self.st.heap:
            return None, None
        e = self.st.heap[snap[1]]
        out = []
        for r in e.strong:
            out.append((r,) + tuple(self.read(r, a) for a in ('key', 'message', 'schema', 'context')))
        return out, bool(e.weak or e.others)

    def path(self):
        return self.st.path()


class _Probe:
    def __init__(self, sc):
        self.sc = sc

    def __enter__(self):
        w, it = self.sc.w, self.sc.it
        self.saved = (w.setup, w.stamping, it.ctx, it.stack, it.fids)
        w.setup, w.stamping = True, True
        w.user_cls = self.sc.cls
        it.ctx, it.stack, it.fids = (('probe',),), [], []

    def __exit__(self, *a):
        w, it = self.sc.w, self.sc.it
        w.setup, w.stamping, it.ctx, it.stack, it.fids = self.saved


class Scenario:
    op = ''

    @classmethod
    def weight(cls, kw):
        w = {'construct': 8, 'update': 8, 'assign': 3}.get(cls.op, 1)
        if kw.get('solo') or not kw.get('given', True):
            w = w // 4
        return w + (2 if kw.get('fmt') == 'all' else 0)

    def __init__(self, repo, default='none', others='all', fmt='str', ambient=True, solo=False, **p):
        self.repo = repo
        self.p = p
        self.default = default
        self.others = others
        self.fmt = fmt
        self.ambient = ambient
        self.solo = solo
        self.inst = None
        self.given = None         # symbol of the value supplied for f*
        self.unknown = False      # an unknown key is in the data
        self.ends = []
        self.extra = []

    def name(self):
        d = dict(default=self.default, others=self.others, fmt=self.fmt, ambient=self.ambient, solo=self.solo, **self.p)
        skip = dict(default='none', others='all', fmt='str', ambient=True, solo=False)
        return self.op + '(' + ', '.join(f'{k}={v}' for k, v in d.items() if skip.get(k, '') != v) + ')'

    def required(self):
        # only matters for the value of an absent field; fixed where the field is given
        return None if self.solo or not self.p.get('given', True) else True

    def probing(self):
        return _Probe(self)

    def build(self):
        known = set()
        while True:
            self.views = []
            self.build_with(known)
            if self.w.clobbered <= known:
                break
            known |= self.w.clobbered
        # what an operation leaves behind in definitions is what a later one starts from
        left = self.carried()
        first = self.ends
        for over in left[:3]:
            self.views, self.over = [], over
            self.build_with(known)
            first = first + self.ends
        self.ends = first
        return self

    over = None

    def roles(self, st):
        return [('field', self.f), ('class', self.cls), ('config', self.su.cfg)]

    def carried(self):
        """Values of attributes of the definitions that an operation has changed, as later operations see them."""
        out = []
        for v in self.views:
            for e in v.ends:
                d = {}
                for role, ref in v.roles(e.st):
                    a, b = v.start.heap.get(ref[1]), e.st.heap.get(ref[1])
                    if a is None or b is None:
                        continue
                    for n in set(a.attrs) | set(b.attrs):
                        x, y = a.attrs.get(n), b.attrs.get(n)
                        if y is None:
                            continue
                        if x != y:
                            d[role, n] = self.later(role, n, y, v.start)
                        elif y[0] == 'r' and y[1] in v.start.heap and y[1] in e.st.heap:
                            p, q = v.start.heap[y[1]], e.st.heap[y[1]]
                            if q.kind in ('list', 'dict', 'set') and (p.strong, p.others, p.weak) != (q.strong, q.others, q.weak):
                                d[role, n] = '*'
                if d and d not in out:
                    out.append(d)
        return out

    @staticmethod
    def later(role, name, v, start):
        if v[0] in ('c', 'H', 'cls', 'fn') or v[0] == 'r' and v[1] in start.heap:
            return v
        return S(('left by an earlier operation', role, name), v[-1] if v[0] == 's' and isinstance(v[-1], str) else 'any')

    def carry(self, st):
        for role, ref in self.roles(st):
            o = st.heap.get(ref[1])
            if o is None:
                continue
            attrs = dict(o.attrs)
            for (r, n), v in self.over.items():
                if r != role:
                    continue
                if v == '*':
                    c = attrs.get(n)
                    if c is not None and c[0] == 'r' and c[1] in st.heap:
                        k = st.heap[c[1]]
                        base = S(('left by earlier operations', role, n), k.kind)
                        st.heap[c[1]] = k.copy(others=(base, 'any', 'any') if k.kind == 'dict' else (base, 'any'),
                                               flags=k.flags - {'excl'}, removed=frozenset())
                else:
                    attrs[n] = v
            st.heap[ref[1]] = o.copy(attrs=attrs)

    def setup(self):
        return Setup(self.repo, self.default, self.ambient, solo=self.solo, required=self.required(),
                     inherited=bool(self.p.get('inherited')), vals=self.p.get('vals'))

    def build_with(self, known):
        self.su = su = self.setup()
        self.it, self.w = su.it, su.w
        self.w.others = self.others
        self.w.fmt = self.fmt
        self.w.clobbered |= known
        for st, f, cls in su.inits:
            self.f, self.cls = f, cls
            self.w.user_cls = cls
            self.view().run(st.copy(), f, cls)
        if not self.views or not all(v.ends for v in self.views):
            raise AnalysisBroken(f'{self.name()}: no path ends')
        self.ends = [e for v in self.views for e in v.ends]

    def view(self):
        """This scenario from one state the set up may have left."""
        v = copy.copy(self)
        v.ends = []
        return v

    def begin(self, st):
        self.views.append(self)
        self.w.late, self.w.mutations = [], []
        self.late, self.mutations = self.w.late, self.w.mutations
        if self.over:
            self.carry(st)
        self.su.begin(st)
        self.start = st.copy()
        self.cv0 = dict(st.cv)

    def finish(self, res):
        for s, v in res:
            s.pins = s.pins + (v[1] if is_raise(v) else v,)
            self.ends.append(End(self, s, v))
            for u, o in s.heap.items():
                if any(r not in s.heap for r in o.refs()):
                    self.it.unknown[('dangling', self.it.uids[u])] += 1

    def owned(self, st, inst):
        """Objects only the given schema object refers to (its own state)."""
        def reach(roots, skip=()):
            seen, todo = set(), list(roots)
            while todo:
                u = todo.pop()
                if u in seen or u in skip or u not in st.heap:
                    continue
                seen.add(u)
                todo.extend(st.heap[u].refs())
            return seen
        rest = set()
        for v in st.pins:
            if v != inst and v[0] == 'r':
                rest |= reach([v[1]], {inst[1]})
        return reach([inst[1]]) - rest


class Construct(Scenario):
    """schema_class(data): data maps k* to v* (or lacks it), and holds other keys."""
    op = 'construct'
    call_kw = {}

    def run(self, st, f, cls):
        it, su = self.it, self.su
        ent = []
        if self.p.get('given', True):
            ent.append((KS, VS))
            self.given = VS
        if self.p.get('unknown'):
            ent.append((US, XS))
            self.unknown = True
        data = su.mapping(st, ent)
        orig = su.mapping(st, [(a, S('original*')) for a, b in ent], 'orig', tag='orig')
        if not self.given:
            for r in (data, orig):
                o = st.heap[r[1]]
                st.heap[r[1]] = o.copy(removed=o.removed | {KS})
        if self.unknown:
            st.facts[('in', US, S('loadfields', 'dict'))] = False
        st.pins = st.pins + (data, orig)
        self.w.data2 = data
        kw = {}
        ig = self.p.get('ignore', 'true')
        if ig in ('true', 'false'):
            kw['ignore_extra'] = C(ig == 'true')
        elif ig == 'sym':
            kw['ignore_extra'] = ARG
        kw.update(self.call_kw)
        self.begin(st)
        self.finish(it.call(st, cls, (orig,), kw, NODE))


class _OnInstance(Scenario):
    def run(self, st, f, cls):
        for s, inst in self.su.instance(st, f, cls, self.p.get('has', True)):
            v = self.view()
            v.inst = inst
            v.w.user_cls = cls
            v.operate(s, f, cls, inst)

    def before(self, st, inst):
        self.before_focus = End(self, st, NONE).value(inst)
        self.before_other = End(self, st, NONE).value(inst, NO)
        self.allowed = self.owned(st, inst)


class Update(_OnInstance):
    op = 'update'

    def operate(self, st, f, cls, inst):
        ent = []
        if self.p.get('given', True):
            ent.append((KS, VS))
            self.given = VS
        if self.p.get('unknown'):
            ent.append((US, XS))
            self.unknown = True
        data = self.su.mapping(st, ent)
        if not self.given:
            o = st.heap[data[1]]
            st.heap[data[1]] = o.copy(removed=o.removed | {KS})
        if self.unknown:
            st.facts[('in', US, S('loadfields', 'dict'))] = False
        st.pins = st.pins + (data,)
        self.before(st, inst)
        kw = {}
        ig = self.p.get('ignore', 'true')
        if ig in ('true', 'false'):
            kw['ignore_extra'] = C(ig == 'true')
        elif ig == 'sym':
            kw['ignore_extra'] = ARG
        self.begin(st)
        for s, m in self.it.get_attr(st, inst, 'update', NODE):
            self.finish(self.it.call(s, m, (data,), kw, NODE))


class Assign(_OnInstance):
    op = 'assign'

    def operate(self, st, f, cls, inst):
        self.given = VS
        self.before(st, inst)
        self.begin(st)
        for s, m in self.it.get_attr(st, f, '__set__', NODE):
            self.finish(self.it.call(s, m, (inst, VS), {}, NODE))


INC, EXC = S('include*', 'list'), S('exclude*', 'list')


class Dump(_OnInstance):
    op = 'dump'

    def operate(self, st, f, cls, inst):
        self.before(st, inst)
        kw = {}
        if 'include' in self.p.get('sel', ''):
            kw['include'] = INC
        if 'exclude' in self.p.get('sel', ''):
            kw['exclude'] = EXC
        self.begin(st)
        for s, m in self.it.get_attr(st, inst, 'dump', NODE):
            self.finish(self.it.call(s, m, (), kw, NODE))

    def selected(self, e):
        """Is f* selected in this end state (None: never examined)."""
        sel = self.p.get('sel', '')
        if sel == '':
            return True
        f = e.st.facts.get(('in', NS, INC if sel == 'include' else EXC))
        return f if sel == 'include' or f is None else not f


class Get(_OnInstance):
    """Reading: by attribute, by name, by load key, by an unknown name."""
    op = 'get'

    def operate(self, st, f, cls, inst):
        self.before(st, inst)
        self.begin(st)
        how = self.p['how']
        st.facts[('in', US, S('loadfields', 'dict'))] = False
        st.facts[('in', US, S('fields', 'dict'))] = False
        st.facts[('in', KS, S('fields', 'dict'))] = False
        for k in (NS, KS):
            st.facts[('eq', US, k)] = st.facts[('eq', k, US)] = False
        if how == 'class':
            for s, m in self.it.get_attr(st, f, '__get__', NODE):
                self.finish(self.it.call(s, m, (NONE, cls), {}, NODE))
            return
        if how == 'attr':
            for s, m in self.it.get_attr(st, f, '__get__', NODE):
                self.finish(self.it.call(s, m, (inst, cls), {}, NODE))
            return
        key = {'name': NS, 'key': KS, 'unknown': US}[how]
        args = (key, self.fallback()) if self.p.get('dflt') else (key,)
        for s, m in self.it.get_attr(st, inst, 'get_value_for', NODE):
            self.finish(self.it.call(s, m, args, {}, NODE))


    def fallback(self):
        """What is to be had for a field without a value."""
        return {'None': NONE, 'zero': C(0), 'no': FALSE, 'empty': C('')}.get(self.p.get('dflt'), PROBE)


class Copy(_OnInstance):
    op = 'copy'

    def operate(self, st, f, cls, inst):
        # some state stored by the user in the schema's context
        ctx = self.it.get_attr(st, inst, 'context', NODE)[0][1]
        state = self.su.mapping(st, (), 'state', tag='state')
        st = self.it.set_attr(st, ctx, 'state', state, NODE)[0][0]
        self.before(st, inst)
        self.begin(st)
        for s, m in self.it.get_attr(st, inst, 'copy', NODE):
            self.finish(self.it.call(s, m, (), {}, NODE))
