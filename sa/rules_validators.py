"""Rules about the built-in validators."""
import re

from .direct import Direct, feasible
from .engine import C, H, NONE, Obj, S, World, is_raise
from .ops import NODE
from .registry import Job

V = S('value*', 'any')
NV = S('value*', 'int')
LO, UP = S('lower*', 'int'), S('upper*', 'int')
SC, CX = S('schema*'), S('context*')
A, B, D = S('a*'), S('b*'), S('c*')
RG = S('range*', 'range')
MOD = 'oblate.validate'
STD = ('ValueError', 'AssertionError', 'FieldError')
REJECT = STD + ('UnicodeDecodeError',)


class VWorld(World):
    def __init__(self, repo):
        self.repo = repo

    def attr(self, it, st, v, name, node):
        if v == RG and name in ('start', 'stop', 'step'):
            return [(st, S(('of', RG, name), 'int'))]
        if v == CX and name == 'schema':
            return [(st, SC)]
        return None

    def decide_isinstance(self, it, st, v, cv):
        if v == RG:
            return cv in (H(range), H(object))
        return None


    def may_not_hash(self, v):
        return v in (V, A, B, D)


class Check(Direct):
    """validator(schema, value, context)"""
    world = VWorld
    value = V

    def run(self, st):
        return self.then(self.validator(st), lambda s, v: self.it.call(s, v, (SC, self.value, CX), {}, NODE))

    def make(self, st, *args, **kw):
        return self.it.call(st, self.cls_of(MOD, self.p.get('cls', self.cls)), args, kw, NODE)


def accepted(R, sc, e):
    """True / False: accepted or rejected; None: neither."""
    if e.kind == 'ok':
        return True
    if R.need(e.kind in REJECT, sc, e, 'rejects-properly', f'ends with {e.kind}'):
        return False
    return None


class Range(Check):
    op = 'Range'
    cls = 'Range'
    value = NV

    def validator(self, st):
        how = self.p['how']
        if how == 'std':
            out = []
            for s, m in self.it.get_attr(st, self.cls_of(MOD, 'Range'), 'from_standard', NODE):
                out.extend(self.it.call(s, m, (RG,), {}, NODE))
            return out
        return self.make(st, *((UP,) if how == 'one' else (LO, UP)))


def v01_range(R, sc):
    how = sc.p['how']
    for e in sc.ends:
        ok = accepted(R, sc, e)
        if ok is None or not feasible(e.st.facts):
            continue
        if how == 'std':
            inn = [b for k, b in e.st.facts.items() if k[0] == 'in' and k[1] == NV and same_range(k[2])]
            if not inn and by_bounds(e.st.facts, ok):
                continue
            R.need(inn == [ok], sc, e, 'standard-range', 'a value is {} without asking whether the range contains it'.format(
                'accepted' if ok else 'rejected') if not inn else 'a value {}in the range is {}'.format(
                '' if inn[0] else 'not ', 'accepted' if ok else 'rejected'))
            continue
        lo = None if how == 'one' else LO
        f = e.st.facts
        if ok:
            R.need(not feasible(f, (NV, lo, -1)), sc, e, 'lower-bound', 'a value below the lower bound may be accepted')
            R.need(not feasible(f, (UP, NV, -1)), sc, e, 'upper-bound', 'a value above the upper bound may be accepted')
        else:
            R.need(not feasible(f, (lo, NV, 0), (NV, UP, 0)), sc, e, 'within-bounds', 'a value within the bounds may be rejected')


def by_bounds(f, ok):
    """A range of step one contains exactly what lies between its bounds."""
    start, stop, step = (S(('of', RG, n), 'int') for n in ('start', 'stop', 'step'))
    if feasible(f, (step, None, 0)) or feasible(f, (None, step, -2)):
        return False
    if ok:
        return not feasible(f, (NV, start, -1)) and not feasible(f, (stop, NV, 0))
    return not feasible(f, (start, NV, 0), (NV, stop, -1))


def same_range(t):
    if t == RG:
        return True
    return t[0] == 's' and t[1][:1] == ('range',) and t[1][1:] == tuple(S(('of', RG, n), 'int') for n in ('start', 'stop', 'step'))


class Length(Check):
    op = 'Length'
    cls = 'Length'

    def validator(self, st):
        kw = {'exact': {'exact': LO}, 'min': {'min': LO}, 'max': {'max': UP}, 'both': {'min': LO, 'max': UP}}[self.p['how']]
        return self.make(st, **kw)


def v01_length(R, sc):
    how = sc.p['how']
    lo, hi = {'exact': (LO, LO), 'min': (LO, None), 'max': (None, UP), 'both': (LO, UP)}[how]
    n = ('len', V)
    for e in sc.ends:
        ok = accepted(R, sc, e)
        f = e.st.facts
        if ok is None or not feasible(f):
            continue
        if ok:
            R.need(lo is None or not feasible(f, (n, lo, -1)), sc, e, 'minimum', 'a shorter value may be accepted')
            R.need(hi is None or not feasible(f, (hi, n, -1)), sc, e, 'maximum', 'a longer value may be accepted')
        else:
            more = ([(lo, n, 0)] if lo is not None else []) + ([(n, hi, 0)] if hi is not None else [])
            R.need(not feasible(f, *more), sc, e, 'within-lengths', 'a value of a permitted length may be rejected')


class Exclude(Check):
    op = 'Exclude'
    cls = 'Exclude'

    def validator(self, st):
        return self.make(st, *(A, B, D)[:self.p['n']])


def v02_exclude(R, sc):
    listed = (A, B, D)[:sc.p['n']]
    for e in sc.ends:
        ok = accepted(R, sc, e)
        if ok is None:
            continue
        eq = [e.st.facts.get(('eq', V, x), e.st.facts.get(('eq', x, V))) for x in listed]
        if ok:
            R.need(all(x is False for x in eq), sc, e, 'listed-rejected', 'a listed value may be accepted')
        else:
            same = [e.st.facts.get(('is',) + tuple(sorted((V, x), key=repr))) for x in listed]
            R.need(any(x is True for x in eq + same), sc, e, 'unlisted-accepted', 'a value that is not listed may be rejected')


class OrWorld(VWorld):
    def opaque_call(self, it, st, fv, args, kwargs, node):
        if fv in (A, B, D):
            out = []
            for o in ('ret', 'true', 'false') + STD + ('Other',):
                s = st.copy()
                s.note(f'{it.loc(node)}: {fv[1][0]} ' + (f'raises {o}' if o in STD + ('Other',) else 'accepts'))
                good = o in ('ret', 'true', 'false')
                rs = [(s, {'ret': NONE, 'true': C(True), 'false': C(False)}[o])] if good else it.user_raise(s, o, node, fv[1][0])
                for s2, v in rs:
                    it.event(s2, ('u', 'run', fv, C('accept' if good else 'Other' if o == 'Other' else 'reject'), C(args == (SC, V, CX))))
                    out.append((s2, v))
            return out
        return super().opaque_call(it, st, fv, args, kwargs, node)


class Or(Check):
    op = 'Or'
    cls = 'Or'
    world = OrWorld

    def validator(self, st):
        return self.make(st, *(A, B, D)[:self.p['n']])


def v02_or(R, sc):
    each = (A, B, D)[:sc.p['n']]
    for e in sc.ends:
        said = {x: [r[3] for r in e.ev if r[2] == x] for x in each}
        other = any(C('Other') in v for v in said.values())
        R.need(all(r[4] == C(True) for r in e.ev), sc, e, 'same-arguments',
               'a validator is not called with the schema, the value and the context')
        if e.kind == 'Other':
            R.need(other and not any(C('accept') in v for v in said.values()), sc, e, 'or-other',
                   'an exception though a validator accepted, or none raised it')
            continue
        ok = accepted(R, sc, e)
        if ok is None:
            continue
        R.need(not other, sc, e, 'or-other', 'an exception that is no rejection is swallowed')
        if ok:
            R.need(any(C('accept') in v for v in said.values()), sc, e, 'or-accepts', 'accepted though no validator accepted')
        else:
            R.need(all(v and all(x == C('reject') for x in v) for v in said.values()), sc, e, 'or-rejects',
                   'rejected though not every validator has rejected')


PS, PP = S('pattern*', 'str'), S('compiled*', 'pattern')
FL, MS, MATCH = S('flags*', 'int'), S('failmsg*', 'str'), S('match*', 'matchobj')
MODES = {'match': 'match', 'full': 'fullmatch', 'search': 'search'}


def compiled(t):
    """The pattern and flags a value is a regular expression of."""
    if t == PP:
        return PP, C(0)
    if t[0] == 's' and t[1][0] == 'rx':
        return t[1][1], t[1][2]
    return None


class RegexWorld(VWorld):
    def attr(self, it, st, v, name, node):
        if compiled(v) and name in MODES.values():
            return [(st, ('hm', v, name))]
        return super().attr(it, st, v, name, node)

    def decide_isinstance(self, it, st, v, cv):
        if compiled(v):
            return cv in (H(re.Pattern), H(object))
        if v == MATCH:
            return cv in (H(re.Match), H(object))
        return super().decide_isinstance(it, st, v, cv)

    def decide_truth(self, it, st, v):
        return True if v == MATCH or compiled(v) else super().decide_truth(it, st, v)

    def call(self, it, st, fv, args, kwargs, node):
        if fv[0] == 'H' and getattr(fv[1].obj, '__module__', '') == 're':
            name = fv[1].obj.__name__
            given = dict(zip(('pattern', 'flags') if name == 'compile' else ('pattern', 'string', 'flags'), args), **kwargs)
            p, f = given.get('pattern'), given.get('flags', C(0))
            if name in MODES.values() or name == 'compile':
                rs = []
                if p == PP or compiled(p):
                    if f != C(0):
                        rs.append(it.raise_(st.copy(), ValueError, node))
                        rs[-1][0].note(f'{it.loc(node)}: flags with a compiled pattern')
                    q = p
                else:
                    q = S(('rx', p, f), 'pattern')
                if name == 'compile':
                    return rs + [(st, q)]
                return rs + self.matched(it, st, q, name, given.get('string', C('?')), node)
        if fv[0] == 'hm' and compiled(fv[1]) and fv[2] in MODES.values():
            return self.matched(it, st, fv[1], fv[2], args[0] if len(args) == 1 and not kwargs else C('?'), node)
        return super().call(it, st, fv, args, kwargs, node)

    def matched(self, it, st, p, mode, v, node):
        out = []
        for b in (True, False):
            s = st.copy()
            s.note(f'{it.loc(node)}: {mode} {"succeeds" if b else "finds nothing"}')
            it.event(s, ('u', 'match', C(mode), compiled(p), v, C(b)))
            out.append((s, MATCH if b else NONE))
        return out


class Regex(Check):
    op = 'Regex'
    cls = 'Regex'
    world = RegexWorld
    value = S('value*', 'str')

    def validator(self, st):
        kw = {'match': {}, 'full': {'full_match': C(True)}, 'search': {'search': C(True)}}[self.p['mode']]
        if self.p.get('flags'):
            kw['flags'] = FL
        return self.make(st, PP if self.p['pattern'] else PS, **kw)


def v02_regex(R, sc):
    want = MODES[sc.p['mode']]
    for e in sc.ends:
        ok = accepted(R, sc, e)
        if ok is None:
            continue
        m = e.events('match')
        fl = FL if sc.p.get('flags') and not sc.p['pattern'] else C(0)
        right = len(m) == 1 and m[0][2] == C(want) and m[0][3] == (PP if sc.p['pattern'] else PS, fl) and m[0][4] == sc.value
        R.need(right, sc, e, 'regex-mode', f'decided without matching the value in {want} mode with the pattern and flags given')
        if right:
            R.need(m[0][5] == C(ok), sc, e, 'regex-decides', 'the outcome of matching is not what decides')


def jobs_v01(tier):
    return [Job(Range, dict(how=h), v01_range) for h in ('one', 'two', 'std')] + \
        [Job(Length, dict(how=h), v01_length) for h in ('exact', 'min', 'max', 'both')]


def jobs_v02(tier):
    return [Job(Exclude, dict(n=n), v02_exclude) for n in (0, 1, 2, 3)] + [Job(Or, dict(n=n), v02_or) for n in (0, 1, 2, 3)] + \
        [Job(Regex, dict(mode=m, pattern=p, flags=f), v02_regex) for m in MODES for p in (False, True) for f in (False, True)]


TABLE = {
    'V01': dict(jobs=jobs_v01, explain='Every path of building and running the range and length validators, with symbolic '
                'bounds and values; the order facts of each path are closed as difference constraints and compared with the '
                'declared bounds.', floor=7, assume=['bounds and values are integers; len() of a value is an integer not below 0'],
                mods=[v01_range, v01_length, accepted]),
    'V02': dict(jobs=jobs_v02, explain='Every path of building and running the exclusion, or- and regex validators: which '
                'comparisons, validators and matches decided the outcome.', floor=18,
                assume=['up to three listed values or validators stand for any number',
                        're.match, re.fullmatch and re.search do what the standard library documents'],
                mods=[v02_exclude, v02_or, v02_regex, accepted]),
}
