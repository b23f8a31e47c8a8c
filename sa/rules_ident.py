"""What errors say they concern (E04), the automatic repr (R01), validator objects and decorated functions (V04)."""
from .engine import C, H, NONE, TRUE, FALSE, Obj, S, is_raise
from .ops import KS, NODE, PARENT, NS, OpWorld, Setup, US
from .scen import Assign, Construct, End, Get, NO, Update, _OnInstance
from .rules_ops import CFG_FROZEN, COMMON, F_FROZEN, HARD, L0, inherit, schema_ok, show
from .rules_errors import CALLER, Errors, ErrorReport, K1, flat
from .rules_errors import M1, M2, L as LST
from .direct import Direct
from .rules_validators import SC, CX, V as VALUE, VWorld
from .registry import Job
from . import models


# ----------------------------------------------------------------------- E04
def said(e):
    """What the text of the error raised consists of, or None."""
    a, out = e.read(e.exc, 'args'), []
    if a is None or a[0] != 't':
        return None
    for x in a[1]:
        if x[0] in 'cs':
            r = flat(e.st, x)
            if r is None:
                return None
            out += r
    return out


def names(sc, e, *what):
    """Does the text of the error name these?"""
    parts = said(e)
    if parts is None:
        return
    text = ''.join(x for x in parts if isinstance(x, str))
    for w in what:
        yield w, w in text if isinstance(w, str) else w in parts


def e04(R, sc):
    for e in sc.ends:
        if e.kind == 'FrozenError':
            x = e.read(e.exc, 'entity')
            cf, ff = e.truth(CFG_FROZEN), e.truth(F_FROZEN)
            if cf is True or x == sc.f:
                who = ('UserSchema',) if cf is True else ('ParentSchema' if sc.p.get('inherited') else 'UserSchema', NS)
                for w, ok in names(sc, e, *who):
                    R.need(ok, sc, e, 'text-names', f'the text of a frozen error does not name {w if isinstance(w, str) else "the field"}')
            if cf is True:
                R.need(x == sc.inst, sc, e, 'frozen-entity', 'the frozen error of a frozen schema does not carry that schema')
            elif x is not None and x[0] in 'so':
                # another field of the same update, summarised
                R.need(x[-1] == 'field', sc, e, 'frozen-entity', f'a frozen error carries {show(x)}')
            else:
                R.need(x == sc.f and ff is True, sc, e, 'frozen-entity', 'the frozen error of a frozen field does not carry that field')
        elif e.kind == 'FieldNotSet':
            name = KS if sc.p['how'] == 'key' else NS
            for w, ok in names(sc, e, NS):
                R.need(ok, sc, e, 'text-names', 'the text of a field-not-set error does not name the field')
            for a, want in (('field', sc.f), ('schema', sc.inst), ('field_name', name), ('name', name)):
                R.need(e.read(e.exc, a) == want, sc, e, 'unset-names', f'the field-not-set error has another {a}')
        elif e.kind in HARD:
            amb = e.st.heap[e.exc[1]].attrs.get('!amb')
            R.need(amb is not None and schema_ok(sc, e, amb), sc, e, 'report-schema',
                   'the validation error is created while another schema is the current one')
            errs, weak = e.errors()
            for r, k, m, s, c in errs or ():
                x = e.read(r, 'field')
                if k == KS:
                    R.need(x == sc.f, sc, e, 'error-field', 'the error of a field does not resolve to that field')
                elif k == US and sc.unknown:
                    R.need(x == NONE, sc, e, 'error-field', 'the error of an unknown key resolves to a field')
        else:
            R.need(True, sc, e, 'ends')


def e04_report(R, sc):
    for e in sc.ends:
        if e.kind != 'ok':
            continue
        R.need(e.read(e.val, 'schema') == CALLER, sc, e, 'report-schema', 'a validation error does not carry the schema it was raised for')


def jobs_e04(tier):
    ops = [(Assign, {}), (Assign, dict(has=False)), (Assign, dict(solo=True)), (Update, {}), (Update, dict(solo=True)),
           (Update, dict(given=False, unknown=True, ignore='false')), (Construct, {}), (Construct, dict(solo=True)),
           (Construct, dict(given=False, unknown=True, ignore='false', solo=True))] + \
        [(Get, dict(how=h, has=False)) for h in ('attr', 'name', 'key')]
    return [Job(c, k, e04) for c, k in ops + inherit(ops)] + [Job(ErrorReport, dict(report=Errors(r)), e04_report)
                                               for r in (((K1, M1),), ((K1, LST(M1, M2)),))]


# ----------------------------------------------------------------------- R01
V1 = S('o-value*')


class Repr(_OnInstance):
    """repr() of a schema object with none, one or two values set."""
    op = 'repr'

    def operate(self, st, f, cls, inst):
        n = self.p['n']
        for uid, o in list(st.heap.items()):
            if o.kind == 'dict' and any(x == L0 for _, x in o.strong) and o.others is None or \
                    o.kind == 'dict' and o.others and o.others[0] == S('values0', 'dict'):
                strong = ((NS, L0), (NO, L0 if self.p.get('same') else V1))[:n]
                st.heap[uid] = o.copy(strong=strong[::-1] if self.p.get('swap') else strong, weak=frozenset(), others=None,
                                      ne=None, flags=o.flags | {'excl'})
        st.facts[('eq', NS, NO)] = st.facts[('eq', NO, NS)] = False
        self.before(st, inst)
        self.begin(st)
        for s, m in self.it.get_attr(st, inst, '__repr__', NODE):
            self.finish(self.it.call(s, m, (), {}, NODE))


def r01(R, sc):
    same = bool(sc.p.get('same'))
    want = {NS: L0, NO: L0 if same else V1} if sc.p['n'] == 2 else {NS: L0} if sc.p['n'] else {}
    for e in sc.ends:
        if not R.need(e.kind == 'ok', sc, e, 'repr-completes', f'repr() ends with {e.kind}'):
            continue
        parts = flat(e.st, e.val)
        if not R.need(parts is not None, sc, e, 'repr-text', 'what the repr consists of is not known'):
            continue
        toks = [p for p in parts if isinstance(p, tuple)]
        R.need('UserSchema' in ''.join(p for p in parts if isinstance(p, str)), sc, e, 'repr-class', 'the repr does not name the class')
        for n, v in want.items():
            R.need(toks.count(n) == 1 and toks.count(v) == 1 + same and toks[toks.index(n) + 1:][:1] == [v], sc, e, 'repr-fields',
                   f'the repr does not show {show(n)} once, with its value')
        more = [t for t in toks if t not in want and t not in want.values()]
        R.need(not more, sc, e, 'repr-fields', 'the repr shows ' + ', '.join(map(show, more)))
        seen = {x[1:3] for x in sc.mutations}
        R.need(not seen, sc, e, 'repr-reads', 'taking the repr writes to an object')


def jobs_r01(tier):
    return [Job(Repr, dict(n=n, solo=n < 2, **k), r01) for n in (0, 1, 2) for k in (({}, dict(swap=True), dict(same=True)) if n == 2 else ({},))]


# ----------------------------------------------------------------------- V04
RET = S('verdict*')


class V4World(VWorld):
    def opaque_call(self, it, st, fv, args, kwargs, node):
        if fv == BODY:
            out = []
            for o in ('ret', 'ValueError', 'AssertionError', 'FieldError', 'Other'):
                s = st.copy()
                rs = [(s, RET)] if o == 'ret' else it.user_raise(s, o, node, 'validate')
                for s2, v in rs:
                    it.event(s2, ('u', 'validate', ('t', tuple(args)), C(len(kwargs)), C(o), v[1] if is_raise(v) else v))
                    out.append((s2, v))
            return out
        return super().opaque_call(it, st, fv, args, kwargs, node)


BODY = ('s', ('hook', 'validate'), 'callable')


class Custom(Direct):
    """An instance of a user subclass of Validator, called; the class of it declared raw, not raw, or neither."""
    op = 'custom-validator'
    world = V4World

    def run(self, st):
        it = self.it
        base = self.cls_of('oblate.validate', 'Validator')
        raw = self.p['raw']
        kw = {} if raw is None else {'raw': C(raw)}
        out = []
        if 'parent' in self.p:
            up = self.p['parent']
            (st, base), = declare(it, st, base, 'ParentValidator', {}, {} if up is None else {'raw': C(up)}, PARENT)
            st.pins = st.pins + (base,)
        for s, k in declare(it, st, base, 'UserValidator', {'validate': BODY}, kw):
            if is_raise(k):
                out.append((s, k))
                continue
            s.pins = s.pins + (k,)
            for s2, v in it.call(s, k, (), {}, NODE):
                if is_raise(v):
                    out.append((s2, v))
                    continue
                self.made = v
                s2.pins = s2.pins + (v,)
                out.extend(it.call(s2, v, (SC, VALUE, CX), {}, NODE))
        return out


def declare(it, st, base, name, members, kw, node=NODE):
    """class name(base, **kw): members"""
    attrs = it.alloc(st, Obj('dict', strong=tuple((C(k), v) for k, v in dict(members, __module__=C('user'), __qualname__=C(name)).items())),
                     NODE, ('ns', name))
    return models.make_class(it, st, it.metaclass(base, st), C(name), ('t', (base,)), attrs, node, kw)


def v04(R, sc):
    raw = bool(sc.p['raw'])
    for e in sc.ends:
        runs = e.events('validate')
        R.need(e.read(sc.made, '__validator_is_raw__') == C(raw), sc, e, 'raw-as-declared',
               f'a validator class declared with raw={sc.p["raw"]} is not marked so')
        if not R.need(len(runs) == 1, sc, e, 'validate-once', f'the validate method runs {len(runs)} times'):
            continue
        x = runs[0]
        R.need(x[2] == ('t', (VALUE, CX)) and x[3] == C(0), sc, e, 'validate-arguments',
               'the validate method is not given the value and the context')
        if x[4] == C('ret'):
            R.need(e.kind == 'ok', sc, e, 'verdict-kept', f'an accepted value ends with {e.kind}')
        else:
            R.need(e.exc is not None and e.exc == x[5], sc, e, 'verdict-kept', f'a rejection by the validate method ends as {e.kind}')


def jobs_v04(tier):
    return [Job(Custom, dict(raw=r, **k), v04, weight=1) for r in (None, True, False)
            for k in ({}, dict(parent=None), dict(parent=True), dict(parent=False))]


TABLE = {
    'E04': dict(jobs=jobs_e04, explain='Every frozen, field-not-set and validation error an operation can end with, and what its '
                'attributes lead to.', floor=20, assume=COMMON, mods=[e04, e04_report]),
    'V04': dict(jobs=jobs_v04, explain='Every path of declaring a validator class with and without its raw option, creating a '
                'validator and calling it, its validate method returning anything or raising.', floor=10,
                assume=['the validate method is opaque and may return or raise anything'], mods=[v04]),
    'R01': dict(jobs=jobs_r01, explain='The text of the automatic repr of objects with none, one and two values, as literal '
                'strings and the symbols of names and values.', floor=8, assume=COMMON, mods=[r01]),
}
