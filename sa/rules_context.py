"""What user code is told about the operation it runs in (C01), and what operations share (P01)."""
from .engine import C, H, NONE, TRUE, FALSE, Obj, S, State, has_old, is_raise
from .ops import DFLT, DS, KS, NODE, NS, OpWorld, RS, US, VS, WS
from .scen import Assign, Construct, Copy, Dump, End, EXC, Get, INC, NO, Update
from .rules_ops import COMMON, HARD, L, L0, inherit, is_v, s20, schema_ok, show
from .registry import Job
from . import rules_types as Y, rules_validators as V, rules_values

STATE, SSTATE = S('state*', 'plain'), S('caller state*', 'plain')
NOF = S('no-field*', 'name')
MARKS = {w: C('mark of ' + w) for w in ('load', 'dump', 'w*', 'r*', 'other')}


# ----------------------------------------------------------------------- C01
class CtxWorld(OpWorld):
    """Every piece of user code leaves a mark of its own in the state of the context it is given."""

    def at(self, it, st, v, name):
        r = it.get_attr(st.copy(), v, name, NODE)
        return r[0][1] if len(r) == 1 and not is_raise(r[0][1]) else C('?')

    def note_marks(self, it, st, what, c):
        """Record what the state of context c holds, and add the mark of this code."""
        s0 = self.at(it, st, c, 'state')
        o = st.heap.get(s0[1]) if s0[0] == 'r' else None
        if o is None or o.kind != 'dict':
            seen = C('no dictionary')
        elif o.others or o.weak or any(k not in MARKS.values() for k, _ in o.strong):
            seen = C('entries of others')
        else:
            seen = ('t', tuple(sorted((k for k, _ in o.strong), key=repr)))
        if what != 'other':
            it.event(st, ('u', 'marks', C(what), c, seen, s0, C(s0[0] == 'r' and s0[1] in self.pre_heap)) + (C('-'),) * 5)
        if o is not None and o.kind == 'dict':
            self.quiet = True
            r = it.set_item(st, s0, MARKS[what], TRUE, NODE)
            self.quiet = False
            if len(r) == 1:
                return r[0][0]
        return st

    quiet = solo = False

    def mutate(self, it, st, target, what, node):
        if not self.quiet:
            super().mutate(it, st, target, what, node)

    def user(self, it, st, what, args, kwargs, node):
        i = {'load': 1, 'dump': 1, 'w*': 2, 'r*': 2}.get(what)
        if i is not None and not self.setup and not self.stamping:
            c = args[i] if len(args) > i else kwargs.get('context', NONE)
            if what == 'dump':
                self.included(it, st, c)
            st = self.note_marks(it, st, what, c)
        elif what == 'default' and not self.setup:
            c = args[0] if args else NONE
            it.event(st, ('u', 'default-context', C(len(args) + len(kwargs))) + tuple(
                self.at(it, st, c, n) for n in ('schema', 'config', 'state')) + tuple(args[1:2] or (C('-'),)) +
                (self.flag(it, st, c, 'is_initialized'),) + (C('-'),) * 4)
        return super().user(it, st, what, args, kwargs, node)

    def flag(self, it, st, v, name):
        out = set()
        for s, m in it.get_attr(st.copy(), v, name, NODE):
            for s2, r in [(s, m)] if is_raise(m) else it.call(s, m, (), {}, NODE):
                out.add(r)
        return out.pop() if len(out) == 1 else C('?')

    def opaque_call(self, it, st, fv, args, kwargs, node):
        if not self.setup and not self.stamping and (fv[0] == 'hm' and fv[2] in ('value_load', 'value_dump')
                                                     or fv[0] in 'so' and fv[-1] == 'validator' and fv not in (WS, RS)):
            c = args[-1] if args else kwargs.get('context', NONE)
            if c[0] == 'r' and c[1] in st.heap:
                # (another validator of the same field shares its context)
                if fv[0] == 'hm' or self.at(it, st, c, 'field')[0] != 'r':
                    st = self.note_marks(it, st, 'other', c)
        return super().opaque_call(it, st, fv, args, kwargs, node)

    def included(self, it, st, c):
        """Which names the context of a serialisation says are included."""
        inc = self.at(it, st, c, 'included_fields')
        if inc == C('?'):
            return it.event(st, ('u', 'included', C('none'), TRUE) + (C('-'),) * 8)
        for n, who in ((NS, 'focus'), (NOF, 'no-field')) if self.solo else ((NS, 'focus'), (NO, 'other'), (NOF, 'no-field')):
            for s, b in it.contains(st.copy(), n, inc):
                i, x = s.facts.get(('in', n, INC)), s.facts.get(('in', n, EXC))
                sel = {'': True, 'include': i, 'exclude': None if x is None else not x}[self.sel]
                # not a field, or selected as the caller asked; an answer that ignores the choice is wrong
                ok = b is (sel if n != NOF else False)
                it.event(st, ('u', 'included', C(who), C(ok)) + (C('-'),) * 8)


class _Ctx:
    def setup(self):
        from .ops import Setup
        return Setup(self.repo, self.default, self.ambient, world=CtxWorld, solo=self.solo, required=self.required(),
                     inherited=bool(self.p.get('inherited')))

    def begin(self, st):
        self.w.solo = self.solo
        self.w.sel = self.p.get('sel', '')
        for n in (NS, NO):
            for m in (NOF,):
                st.facts[('eq', n, m)] = st.facts[('eq', m, n)] = False
        st.facts[('in', NOF, S('fields', 'dict'))] = False
        st.facts[('in', NOF, S('values0', 'dict'))] = False
        st.facts[('in', NO, S('values0', 'dict'))] = True
        st.facts[('eq', NS, NO)] = st.facts[('eq', NO, NS)] = False
        super().begin(st)


class CConstruct(_Ctx, Construct):
    """Construction, with a state of the caller's or without."""

    def run(self, st, f, cls):
        self.call_kw = {'state': SSTATE} if self.p.get('state') else {}
        super().run(st, f, cls)


class CUpdate(_Ctx, Update):
    pass


class CAssign(_Ctx, Assign):
    pass


class CDump(_Ctx, Dump):
    pass


def c01(R, sc):
    for e in sc.ends:
        # ---- the state of value contexts
        left = {}
        for x in e.events('marks'):
            what, c, seen, ref, old = x[2][2], x[3], x[4], x[5], x[6]
            mine = left.setdefault(c, [])
            R.need(old == C(False), sc, e, 'own-state', f'the state of the context given to {what} existed before the operation')
            R.need(seen == ('t', tuple(sorted((MARKS[w] for w in mine), key=repr))), sc, e, 'own-state',
                   f'the state of the context given to {what} is no dictionary holding just what the code for this value left there'
                   + (f' but {seen[2]}' if seen[0] == 'c' else ''))
            mine.append(what)
        # ---- included_fields
        for x in e.events('included'):
            R.need(x[3] == TRUE and x[2] != C('none'), sc, e, 'included-fields',
                   {'focus': 'the field being serialized', 'other': 'another field', 'no-field': 'a name that is no field',
                    'none': 'included_fields itself'}[x[2][2]] + ' is wrongly in or missing from included_fields')
        for x in e.wev('included'):
            R.need(x[3] == TRUE and x[2] != C('none'), sc, e, 'included-fields',
                   'included_fields is wrong for some field being serialized')
        for x in e.events('dump'):
            R.need(x[4] == L0 and x[6] == sc.f and x[7] == L0 and x[8] == sc.inst, sc, e, 'dump-context',
                   'the context of the serializer does not carry the field, its value and the schema')
            R.need(any(y[1] == 'included' for y in e.ev), sc, e, 'included-fields', 'included_fields is not available')
        # ---- the schema context
        state0 = SSTATE if sc.p.get('state') else NONE
        for x in e.events('default-context'):
            R.need(x[2] == C(2) and schema_ok(sc, e, x[3]) and x[6] == sc.f, sc, e, 'default-arguments',
                   'the default is not called with the context of the schema and the field')
            R.need(x[5] == state0, sc, e, 'caller-state', f'the schema context has the state {show(x[5])} when a default runs')
            R.need(x[7] == FALSE, sc, e, 'default-arguments', 'the schema reports itself initialised when a default runs')
            R.need(x[4] == sc.su.cfg, sc, e, 'governing-config', 'the schema context names another configuration')
        obj = e.val if sc.op == 'construct' and e.kind == 'ok' else sc.inst
        if obj is not None and obj[0] == 'r':
            c = e.read(obj, 'context')
            R.need(c is not None and e.read(c, 'schema') == obj, sc, e, 'schema-context', 'the context of a schema names another schema')
            if c is None:
                continue
            R.need(e.read(c, 'config') == sc.su.cfg, sc, e, 'governing-config', 'the schema context names another configuration')
            R.need(e.read(c, 'state') == (state0 if sc.op == 'construct' else NONE), sc, e, 'caller-state',
                   f'the state in the schema context is {show(e.read(c, "state"))}')


def jobs_c01(tier):
    out = []
    for solo in (True, False):
        out += [(CConstruct, dict(solo=solo)), (CConstruct, dict(given=False, default='call', state=True, solo=solo)),
                (CConstruct, dict(given=False, default='call', solo=solo)), (CUpdate, dict(solo=solo)), (CAssign, dict(solo=solo))]
        out += [(CDump, dict(sel=x, solo=solo)) for x in ('', 'include', 'exclude')]
    out += [(CConstruct, dict(state=True, solo=True)), (CAssign, dict(has=False, solo=True)), (CUpdate, dict(has=False, solo=True))]
    return [Job(c, k, c01) for c, k in out + inherit(out)]


# ----------------------------------------------------------------------- P01
def globally_reachable(st, stop=()):
    """Objects any code can reach: module globals, class attributes, default arguments."""
    seen, todo = set(), [v[1] for k, v in st.env.items() if k[0] in ('G', 'CA', 'SA') and v[0] == 'r']
    while todo:
        u = todo.pop()
        o = st.heap.get(u)
        if u in seen or o is None or o.kind == 'class' or o.cls in stop:
            continue
        seen.add(u)
        todo.extend(o.refs())
    return seen


class _Shared:
    """Records every write to what operations on other objects can reach as well."""
    active = True

    def __init__(self, repo):
        super().__init__(repo)
        self.shared = []

    def mutate(self, it, st, target, what, node):
        super().mutate(it, st, target, what, node)
        if not self.active or getattr(self, 'setup', False) or getattr(self, 'stamping', False) or \
                it.stack and it.stack[0].name == '<module>':
            return
        if target[0] == 'r':
            if target[1] not in globally_reachable(st, (getattr(self, 'user_cls', None),)):
                return
        elif target[0] in 'so' and not (target[0] == 's' and isinstance(target[1], tuple) and target[1][0] in (
                'outer', 'import', 'module', 'unknown-name')) and target[-1] != 'gconfig':
            return
        self.shared.append((it.loc(node), target, what, st))


class SharedOp(_Shared, OpWorld):
    pass


class SharedValue(_Shared, rules_values.ValueWorld):
    pass


class SharedNest(_Shared, rules_values.NestWorld):
    pass


class SharedType(_Shared, rules_values.TypeWorld):
    pass


class _POp:
    def setup(self):
        from .ops import Setup
        return Setup(self.repo, self.default, self.ambient, world=SharedOp, solo=self.solo, required=self.required(),
                     inherited=bool(self.p.get('inherited')))


def p01(R, sc):
    R.obligations += len(sc.ends)
    seen = set()
    for loc, target, what, st in sc.w.shared:
        if (loc, what[:2]) in seen:
            continue
        seen.add((loc, what[:2]))
        who = 'a class' if target[0] == 'cls' else 'a module' if target[0] == 'mod' else 'a function' if target[0] == 'fn' else \
            'the object in ' + next((f'{k[1]}.{k[2]}' for k, v in st.env.items() if v == target and k[0] in ('G', 'CA', 'SA')),
                                    'what a module global, class attribute or default argument holds')
        R.need(False, sc, None, 'no-shared-state', f'{loc}: {what[0]} of {who}, which operations on other schemas use too')


def _named(name):
    return type(name.__name__ + 'P', (_POp, name), {})


PC, PU, PA, PD, PG, PY = (_named(x) for x in (Construct, Update, Assign, Dump, Get, Copy))


def jobs_p01(tier):
    ops = [(PC, {}), (PC, dict(given=False, default='call')), (PC, dict(given=False, unknown=True, ignore='sym', solo=True)),
           (PC, dict(solo=True)), (PU, {}), (PU, dict(solo=True)), (PU, dict(given=False, unknown=True, ignore='sym', solo=True)),
           (PA, {}), (PA, dict(solo=True)), (PA, dict(has=False, solo=True)), (PD, dict(sel='')), (PD, dict(sel='include')),
           (PD, dict(sel='exclude')), (PG, dict(how='attr')), (PG, dict(how='name')), (PG, dict(how='key')), (PG, dict(how='unknown')),
           (PG, dict(how='name', dflt=True, has=False)), (PG, dict(how='attr', has=False)), (PY, {})]
    out = [Job(c, k, p01) for c, k in ops + inherit(ops)]
    W = rules_values
    specs = [(sp, SharedValue) for sp in [W.P(c) for c in W.P.HOST] + list(W.lenient())] + [(sp, SharedType) for sp in W.tspecs()] + \
        [(W.N(k), SharedNest) for k in (False, True)]
    for sp, w in specs:
        sp.world = w
        b = getattr(sp, 'cls', '') == 'Boolean'
        out.append(W._job(W.LoadBool if b else W.Load, sp, p01))
        out.append(W._job(W.LoadBoolAssign if b else W.LoadAssign, sp, p01))
        out.append(W._job(W.DumpNone if w is SharedNest else W.DumpValue, sp, p01, sel=''))
    return out + direct_jobs(p01)


# ---------------------------------------------------------------- validators and type validation on their own
class _Pre(_Shared):
    """Also records every write to what existed before the call."""
    pre_heap, own = None, None

    def __init__(self, repo):
        super().__init__(repo)
        self.old = []

    def mutate(self, it, st, target, what, node):
        if self.pre_heap is None:
            return
        super().mutate(it, st, target, what, node)
        if it.stack and it.stack[0].name == '<module>':
            return
        if target[0] != 'r' or target[1] in self.pre_heap:
            self.old.append((it.loc(node), target, what, st))


class _Began:
    """The validator exists, and so do the values; the call starts here."""
    def started(self, st):
        self.w.pre_heap = frozenset(st.heap)


class _Check(_Began):
    def run(self, st):
        def ask(s, v):
            self.started(s)
            r = self.it.call(s, v, (V.SC, self.value, V.CX), {}, NODE)
            self.w.pre_heap = None
            return r
        return self.then(self.validator(st), ask)


class _Validate(_Began):
    def ask(self, s, value, tp):
        ts = self.it.alloc(s, Obj('dict', strong=((Y.K, H(tp)),)), NODE, 'types')
        vs = self.it.alloc(s, Obj('dict', strong=((Y.K, value),)), NODE, 'values')
        s.pins = s.pins + (ts, vs, value)
        self.started(s)
        r = self.it.call(s, self.fname(), (ts, vs), {}, NODE)
        self.w.pre_heap = None
        return r


def _direct(mix, cls):
    return type(cls.__name__ + 'Pre', (mix, cls), dict(world=type(cls.world.__name__ + 'Pre', (_Pre, cls.world), {})))


def s20d(R, sc):
    R.obligations += len(sc.ends)
    seen = set()
    for loc, target, what, st in sc.w.old:
        if (loc, what[:2]) not in seen:
            seen.add((loc, what[:2]))
            R.need(False, sc, None, 'writes-only-own-state', f'{loc}: {what[0]} of an object the call must not modify: {show(target)}')


def direct_jobs(rule):
    out = []
    for j in V.jobs_v01('quick') + V.jobs_v02('quick'):
        out.append(Job(_direct(_Check, j.cls), j.kw, rule))
    for j in Y.jobs_t06('quick') + [Job(Y.Validate, dict(tp=t), None, weight=1) for t in Y.uniq(Y.BARE + Y.supported(1))]:
        out.append(Job(_direct(_Validate, Y.Validate), j.kw, rule, weight=1))
    return out


def jobs_s20d(tier):
    out = direct_jobs(s20d)
    W = rules_values
    specs = [(sp, None) for sp in [W.P(c) for c in W.P.HOST] + list(W.lenient())] + [(sp, None) for sp in W.tspecs()] + \
        [(W.N(k), 'nest') for k in (False, True)]
    for sp, w in specs:
        b = getattr(sp, 'cls', '') == 'Boolean'
        out.append(W._job(W.LoadBool if b else W.Load, sp, s20))
        out.append(W._job(W.LoadBoolAssign if b else W.LoadAssign, sp, s20))
        out.append(W._job(W.DumpNone if w else W.DumpValue, sp, s20, sel=''))
    return out


TABLE = {
    'S20': dict(jobs=jobs_s20d, explain='Every write made by the built-in fields, the built-in validators and type validation.',
                floor=50, assume=['the record of unsupported types is not reached by the supported type expressions enumerated'],
                mods=[s20d]),
    'C01': dict(jobs=jobs_c01, explain='The context objects given to every call of user code, which leaves a mark in their state, '
                'and the schema context after the operation.', floor=40, assume=COMMON, mods=[c01]),
    'P01': dict(jobs=jobs_p01, explain='Every write any operation makes, against what module globals, class attributes and default '
                'arguments of the package reach.', floor=40, assume=COMMON + ['context variables are separate for each thread and task'],
                mods=[p01]),
}
