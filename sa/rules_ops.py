"""Rules deciding the schema-operation properties on the end states of scenarios.

A rule looks only at what is observable: the events of user code (with the
values and the ambient record they saw), the value or error the operation ends
with, the stored values as the public interface reads them, and which objects
existing before the call were written.
"""
from .engine import C, NONE, S, TRUE, FALSE, H, is_raise
from .ops import NS, KS, DS, US, VS, XS, mentions
from .scen import (Construct, Update, Assign, Dump, Get, Copy, NO, PROBE, ARG, INC, EXC)
from .repo import AnalysisBroken
import builtins
import itertools

L, G, D, L0 = S('L*'), S('G*'), S('D*'), S('L0*')
DEFAULT = S('default*', 'plain')
CFG_FROZEN, F_FROZEN = S('cfg.frozen', 'bool'), S('f.frozen', 'bool')
CFG_IGNORE = S('cfg.ignore_extra', 'bool')
F_NONE, F_REQUIRED = S('f.none', 'bool'), S('f.required', 'bool')
HARD = ('VE', 'VE-stale')


def show(v):
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(show(x) for x in v)) + '}'
    names = {NS: 'field name', KS: 'load key', DS: 'dump key', US: 'unknown key', VS: 'given value',
             L: 'deserialized value', G: 'default result', D: 'serialized value', L0: 'old value', PROBE: '(no value)',
             DEFAULT: 'default'}
    if v in names:
        return names[v]
    if isinstance(v, tuple) and v and v[0] == 'c':
        return repr(v[2])
    return str(v)[:120]


def code(sc, e, name):
    v = e.read(sc.f, name)
    if v is None or v[0] != 'c':
        raise AnalysisBroken(f'error code Field.{name} is not a constant')
    return v


def noneness(e):
    """Is the supplied value None on this path (None: never examined)?"""
    return e.isnone(VS)


def is_v(e, v):
    """v denotes the value supplied."""
    return v == VS or (v == NONE and e.isnone(VS) is True)


def sch(sc, e):
    return sc.inst if sc.inst is not None else None


def schema_ok(sc, e, v):
    """v is the schema object the operation works on."""
    if sc.inst is not None:
        return v == sc.inst
    if e.kind == 'ok':
        return v == e.val
    return v[0] == 'r' and (v[1] not in e.st.heap or e.st.heap[v[1]].cls == sc.cls) and v[1] not in sc.start.heap


def has_v(sc, kind):
    """Does the field have a validator of the kind (plain, raw)?"""
    return sc.p.get('vals') in (None, kind)


# ------------------------------------------------------------------ S01, S04
def accepted(R, sc, e):
    """An operation that completed accepted the value supplied for f*."""
    if e.kind == 'ok':
        bad = e.fails('load', 'w*', 'r*')
        R.need(not bad, sc, e, 'accepted-only-if-valid',
               f'completes although {bad[0][1] if bad else ""} rejected the value')
        val = e.value()
        nn = noneness(e)
        raw = [x for x in e.events('r*') if x[2][2] == 'ret']
        R.need(not has_v(sc, 'raw') or any(is_v(e, x[4]) for x in raw), sc, e, 'raw-validated',
               'completes without the raw validator having accepted the supplied value')
        if nn is True:
            R.need(e.truth(F_NONE) is True, sc, e, 'none-only-if-allowed', 'None accepted without the field allowing None')
            R.need(all(is_v(e, v) for v in val) and val, sc, e, 'none-stored',
                   f'None accepted but the stored value is {show(val)}')
        else:
            got = [x for x in e.events('load') if x[2][2] == 'ret']
            R.need(bool(got) and all(x[4] == VS for x in got), sc, e, 'deserialized',
                   'completes without the deserializer having accepted the supplied value')
            R.need(val == {L}, sc, e, 'stored-value',
                   f'the stored value is {show(val)} instead of the deserialized value')
            nv = [x for x in e.events('w*') if x[2][2] == 'ret']
            R.need(not has_v(sc, 'plain') or any(x[4] == L for x in nv), sc, e, 'validated',
                   'completes without the validator having accepted the deserialized value')
    elif e.kind in HARD:
        if sc.solo and not sc.unknown:
            cause = e.fails('load', 'w*', 'r*') or (noneness(e) is True and e.truth(F_NONE) is not True)
            R.need(cause, sc, e, 'rejected-only-for-cause', 'a value everything accepted is rejected')
    else:
        bad = e.fails('load', 'w*', 'r*')
        R.need(e.kind == 'Other' or not bad or not sc.solo and e.kind == 'FrozenError', sc, e, 'rejects-with-validation-error',
               f'{bad[0][1] if bad else ""} rejected the value but the operation ends with {e.kind}')
        R.need(e.kind in ('Other', 'FrozenError'), sc, e, 'ends-definitely', f'ends with {e.kind}')


def s01(R, sc):
    for e in sc.ends:
        accepted(R, sc, e)


def s04(R, sc):
    for e in sc.ends:
        accepted(R, sc, e)
        if sc.op == 'assign':
            if e.kind != 'ok':
                R.need(e.value() == sc.before_focus, sc, e, 'rejected-assignment-keeps-old',
                       f'after a rejected assignment the field has {show(e.value())}')
            if not sc.solo:
                R.need(e.value(name=NO) == sc.before_other, sc, e, 'no-other-field-changes',
                       f'another field has {show(e.value(name=NO))}')


# ----------------------------------------------------------------------- S02
def contains(errs, *msgs):
    return [x for x in errs if x[2] in msgs]


def message_of(e, ev, vf):
    """Messages that report this failing event."""
    what, out, msg = ev[1], ev[2][2], ev[3]
    if out == 'FieldError':
        return (msg,)
    st = ('s', ('str', msg), 'str')
    t = e.truth(st)
    fm = S(('fmt-str', vf), 'str')
    if t is True:
        return (st,)
    if t is False:
        return (fm,)
    return (st, fm)


def s02(R, sc):
    vf = None
    for e in sc.ends:
        if e.kind not in HARD:
            continue
        errs, weak = e.errors()
        if errs is None:
            R.need(False, sc, e, 'error-list', 'the validation error is not raised with the list of errors collected')
            continue
        vf = vf or code(sc, e, 'ERR_VALIDATION_FAILED')
        for ev in e.fails('load', 'dump', 'w*', 'r*', 'default'):
            msgs = message_of(e, ev, vf)
            if msgs[0] == S(('fmt-str', vf), 'str') and sc.fmt == 'all':
                continue
            R.need(contains(errs, *msgs), sc, e, 'every-failure-reported',
                   f'the failure of {ev[1]} is missing from the raised error')
        for ev in e.events('format'):
            if ev[2][2] == 'ret' and ev[3][0] == 's' and ev[3][1][0] == 'fmt-str':
                R.need(contains(errs, ev[3]), sc, e, 'every-failure-reported',
                       f'a failure with code {show(ev[4])} is missing from the raised error')
        nf = len({x for x in e.fails('load', 'w*', 'r*', 'default', 'dump')})
        R.need(len(errs) >= nf, sc, e, 'every-failure-reported', 'fewer errors raised than failures found')
        if sc.op in ('construct', 'update', 'assign'):
            if sc.given:
                nn = noneness(e)
                R.need(e.events('r*') or not has_v(sc, 'raw'), sc, e, 'every-entry-examined', 'a raw validator is skipped')
                R.need(nn is not None, sc, e, 'every-entry-examined', 'a supplied value is not examined')
                if nn is False:
                    R.need(e.events('load'), sc, e, 'every-entry-examined', 'a supplied value is not deserialized')
                if any(x[2][2] == 'ret' for x in e.events('load')):
                    R.need(e.events('w*') or not has_v(sc, 'plain'), sc, e, 'every-entry-examined', 'a validator is skipped')
                if nn is True:
                    al = e.truth(F_NONE)
                    R.need(al is not None, sc, e, 'every-entry-examined', 'the None rule is not decided')
                    if al is False:
                        c = code(sc, e, 'ERR_NONE_DISALLOWED')
                        R.need(any(x[4] == c for x in e.events('format')), sc, e, 'every-failure-reported',
                               'a disallowed None is not reported')
            elif sc.op == 'construct' and sc.default == 'none':
                rq = e.truth(F_REQUIRED)
                R.need(rq is not None, sc, e, 'every-entry-examined', 'an absent field is not examined')
                if rq:
                    c = code(sc, e, 'ERR_FIELD_REQUIRED')
                    R.need(any(x[4] == c for x in e.events('format')), sc, e, 'every-failure-reported',
                           'a missing required field is not reported')
            elif sc.op == 'construct' and sc.default == 'call':
                R.need(e.events('default'), sc, e, 'every-entry-examined', 'an absent field is not given its default')
            if sc.unknown:
                ig = ignored(sc, e)
                R.need(ig is not None, sc, e, 'every-entry-examined', 'an unknown key is not examined')
                if ig is False:
                    R.need(any(x[1] == US for x in errs), sc, e, 'every-failure-reported', 'an unknown key is not reported')
        elif sc.op == 'dump':
            sel = sc.selected(e)
            R.need(sel is not None, sc, e, 'every-entry-examined', 'a field is not examined')
            if sel and sc.p.get('has', True):
                R.need(e.events('dump'), sc, e, 'every-entry-examined', 'a selected field is not serialized')


# ----------------------------------------------------------------------- S03
def s03(R, sc):
    for e in sc.ends:
        if e.kind == 'ok':
            continue
        v = e.value()
        R.need(v == sc.before_focus, sc, e, 'rolled-back',
               f'the update raises ({e.kind}) but leaves the field with {show(v)} instead of {show(sc.before_focus)}')
        if not sc.solo:
            v = e.value(name=NO)
            R.need(v == sc.before_other, sc, e, 'rolled-back-others',
                   f'the update raises ({e.kind}) but another field may have {show(v)}')


# ----------------------------------------------------------------------- S05
def s05(R, sc):
    for e in sc.ends:
        cf, ff = e.truth(CFG_FROZEN), e.truth(F_FROZEN)
        need_f = sc.op == 'assign' or sc.given
        if e.kind in ('ok',) + HARD:
            R.need(cf is False, sc, e, 'frozen-schema', f'ends {e.kind} on a schema that may be frozen')
            if need_f:
                R.need(ff is False, sc, e, 'frozen-field', f'ends {e.kind} for a field that may be frozen')
        elif cf is True or (need_f and ff is True):
            R.need(e.kind in ('FrozenError', 'Other'), sc, e, 'frozen-error', f'raises {e.kind} for frozen')
            # nothing of the frozen field may be touched
            R.need(e.value() == sc.before_focus, sc, e, 'frozen-unchanged',
                   f'a frozen field has {show(e.value())} after a refused change')
        if e.kind == 'FrozenError' and sc.solo:
            R.need(cf is True or ff is True, sc, e, 'frozen-only-if-declared', 'refused although nothing is frozen')
        if e.kind not in ('ok', 'Other', 'FrozenError') + HARD:
            R.need(False, sc, e, 'frozen-error', f'ends with {e.kind}')


# ----------------------------------------------------------------------- S06
def s06(R, sc):
    for e in sc.ends:
        if sc.given:
            if e.kind == 'ok' and noneness(e) is not True:
                R.need(e.value() == {L}, sc, e, 'default-never-replaces',
                       f'a supplied value is replaced: the field has {show(e.value())}')
            elif e.kind == 'ok':
                R.need(all(is_v(e, v) for v in e.value()), sc, e, 'default-never-replaces',
                       f'a supplied None is replaced: the field has {show(e.value())}')
            continue
        rc = code(sc, e, 'ERR_FIELD_REQUIRED')
        miss = [x for x in e.events('format') if x[4] == rc]
        rq = e.truth(F_REQUIRED)
        if sc.default != 'none':
            R.need(not miss, sc, e, 'default-not-required', 'a field with a default is reported as missing')
        if e.kind == 'ok':
            if sc.default == 'none':
                R.need(rq is False, sc, e, 'required-reported', 'completes without a required field')
                R.need(e.value() == {PROBE}, sc, e, 'optional-stays-unset', f'an absent field has {show(e.value())}')
            elif sc.default == 'None':
                R.need(e.value() == {NONE}, sc, e, 'default-used', f'an absent field has {show(e.value())}')
            elif sc.default == 'const':
                R.need(e.value() == {DEFAULT}, sc, e, 'default-used', f'an absent field has {show(e.value())}')
            else:
                R.need(e.value() == {G}, sc, e, 'default-used', f'an absent field has {show(e.value())}')
                ctx = e.read(e.val, 'context')
                d = e.events('default')
                R.need(len(d) == 1 and d[0][4] == ctx and d[0][5] == sc.f, sc, e, 'default-called-with',
                       'the default is not called once with the schema context and the field')
        elif e.kind in HARD:
            errs, weak = e.errors()
            if sc.default == 'none':
                if rq is True:
                    R.need(miss and errs is not None and any(x[1] == KS for x in errs), sc, e, 'required-reported',
                           'a missing required field is not reported under its key')
                elif sc.solo:
                    R.need(False, sc, e, 'optional-accepted', 'an absent optional field is an error')
            elif sc.solo:
                R.need(e.fails('default'), sc, e, 'default-accepted', 'an absent field with a default is an error')
        else:
            R.need(e.kind == 'Other', sc, e, 'ends-definitely', f'ends with {e.kind}')


# ----------------------------------------------------------------------- S07
def s07(R, sc):
    for e in sc.ends:
        nn = noneness(e)
        for x in e.events('load'):
            R.need(x[4] != NONE and not (x[4] == VS and nn is not False), sc, e, 'none-never-deserialized',
                   'None can reach the deserializer')
        for x in e.events('w*'):
            R.need(x[4] != NONE and not (x[4] == VS and nn is not False), sc, e, 'none-never-validated',
                   'None can reach a validator that is not raw')
        if nn is not True:
            if e.kind in ('ok',) + HARD:
                R.need(nn is False, sc, e, 'none-examined', 'the None rule is not applied')
            continue
        al = e.truth(F_NONE)
        if e.kind == 'ok':
            R.need(al is True, sc, e, 'none-rejected', 'None is accepted by a field that may not allow it')
            R.need(e.value() and all(is_v(e, v) for v in e.value()), sc, e, 'none-stored',
                   f'an allowed None is stored as {show(e.value())}')
        if e.kind in ('ok',) + HARD:
            R.need(not has_v(sc, 'raw') or any(is_v(e, x[4]) for x in e.events('r*')), sc, e, 'none-seen-by-raw',
                   'raw validators do not see None')
        if e.kind in HARD:
            R.need(al is not None, sc, e, 'none-rejected', 'the None rule is not decided')
            c = code(sc, e, 'ERR_NONE_DISALLOWED')
            fm = [x for x in e.events('format') if x[4] == c]
            if al is False:
                errs, weak = e.errors()
                R.need(fm and errs is not None and any(x[1] == KS for x in errs), sc, e, 'none-rejected-with-code',
                       'a disallowed None is not reported with the none-disallowed error')
            else:
                R.need(not fm, sc, e, 'none-accepted', 'an allowed None is reported as disallowed')
                if sc.solo and not sc.unknown:
                    R.need(e.fails('r*'), sc, e, 'none-accepted', 'an allowed None is rejected')


# ----------------------------------------------------------------------- S08
def ignored(sc, e):
    ig = sc.p.get('ignore', 'true')
    if ig in ('true', 'false'):
        return ig == 'true'
    return e.truth(ARG if ig == 'sym' else CFG_IGNORE)


def s08(R, sc):
    for e in sc.ends:
        ig = ignored(sc, e)
        if e.kind in ('ok',) + HARD:
            R.need(ig is not None, sc, e, 'extras-decided',
                   'ends without the setting that applies having been consulted')
        if e.kind == 'ok':
            R.need(ig is not False, sc, e, 'unknown-rejected', 'an unknown key is accepted')
            if sc.op == 'construct':
                R.need(e.value() <= {PROBE, L, VS, NONE}, sc, e, 'unknown-no-effect', 'an unknown key sets a field')
            if sc.solo:
                o = e.st.heap.get(e.val[1]) if e.val and e.val[0] == 'r' else None
        elif e.kind in HARD:
            errs, weak = e.errors()
            has = errs is not None and any(x[1] == US for x in errs)
            if ig is False:
                R.need(has, sc, e, 'unknown-reported', 'an unknown key is not reported under that key')
            elif ig is True:
                R.need(not has, sc, e, 'ignored-no-error', 'an ignored key is reported')
                if sc.solo and not sc.given:
                    R.need(e.truth(F_REQUIRED) is True and sc.op == 'construct', sc, e, 'ignored-no-effect',
                           'data with only an ignored key is rejected')
        else:
            R.need(e.kind in ('Other', 'FrozenError'), sc, e, 'ends-definitely', f'ends with {e.kind}')


# ----------------------------------------------------------------------- S09
def s09(R, sc):
    for e in sc.ends:
        ld = e.events('load')
        us = e.events('load', 'w*', 'r*')
        for x in e.events('r*'):
            R.need(is_v(e, x[4]), sc, e, 'raw-sees-raw', f'a raw validator is given {show(x[4])}')
        for x in e.events('w*'):
            R.need(x[4] == L, sc, e, 'validator-sees-loaded', f'a validator is given {show(x[4])}')
            R.need(any(y[2][2] == 'ret' for y in ld), sc, e, 'validator-needs-load',
                   'a validator runs for a value whose deserialization failed')
        for x in ld:
            R.need(is_v(e, x[4]), sc, e, 'load-sees-raw', f'the deserializer is given {show(x[4])}')
        if us:
            R.need(len({x[5] for x in us}) == 1 and us[0][5][0] == 'r', sc, e, 'shared-context',
                   'the deserializer and the validators receive different contexts')
            for x in us:
                R.need(x[6] == sc.f and is_v(e, x[7]) and schema_ok(sc, e, x[8]), sc, e, 'context-content',
                       f'the context given to {x[1]} does not carry the field, raw value and schema')
        if sc.op == 'construct':
            idx = [n for n, x in enumerate(e.ev) if x[1] == 'load']
            val = [n for n, x in enumerate(e.ev) if x[1] in ('w*', 'r*')]
            if idx and val:
                R.need(max(idx) < min(val), sc, e, 'validators-after-loading',
                       'a validator runs before all fields are loaded')
            di = [n for n, x in enumerate(e.ev) if x[1] == 'default']
            if di and val:
                R.need(max(di) < min(val), sc, e, 'validators-after-defaults', 'a validator runs before defaults are set')
    if sc.op == 'construct':
        for at, path, fv in sc.late[:1]:
            e = sc.ends[0]
            R.need(False, sc, None, 'validators-after-loading',
                   f'{at}: a field is loaded or defaulted after a validator of another field ran')


# ----------------------------------------------------------------------- S10
def s10(R, sc):
    for e in sc.ends:
        for ref, v in sc.cv0.items():
            R.need(e.st.cv.get(ref) == v, sc, e, 'context-restored',
                   f'the ambient record differs after the operation ends with {e.kind}')
        for ref, v in e.st.cv.items():
            if ref not in sc.cv0:
                R.need(False, sc, e, 'context-restored',
                       f'the ambient record is left set after the operation ends with {e.kind}')


# ----------------------------------------------------------------------- S11
def s11(R, sc):
    for e in sc.ends:
        ctxs = {x[1]: x[5] for x in e.events('load', 'dump', 'w*', 'r*')}
        for x in e.events('load', 'dump', 'w*', 'r*', 'format', 'default'):
            a_s, a_k, a_c = x[-3:]
            R.need(schema_ok(sc, e, a_s), sc, e, 'ambient-schema',
                   f'the ambient schema is wrong while {x[1]} runs')
            R.need(a_k == KS, sc, e, 'ambient-key', f'the ambient key is {show(a_k)} while {x[1]} runs')
            if x[1] in ('load', 'dump', 'w*', 'r*'):
                R.need(a_c == x[5], sc, e, 'ambient-context',
                       f'the ambient value context while {x[1]} runs is not the one passed to it')
        if e.kind in HARD:
            errs, weak = e.errors()
            if errs is None:
                continue
            for r, k, m, s, c in errs:
                if k == US and sc.unknown:
                    R.need(s is not None and schema_ok(sc, e, s), sc, e, 'error-schema',
                           'the error of an unknown key names another schema')
                    continue
                R.need(k == KS, sc, e, 'error-key', f'a field error carries the key {show(k) if k else "?"}')
                R.need(s is not None and schema_ok(sc, e, s), sc, e, 'error-schema', 'a field error names another schema')
                for x in e.fails('load', 'dump', 'w*', 'r*'):
                    if m in message_of(e, x, C('')) and x[2][2] == 'FieldError' or \
                            x[2][2] == 'std' and m == ('s', ('str', x[3]), 'str'):
                        R.need(c == x[5], sc, e, 'error-context',
                               f'the error of {x[1]} does not carry the context given to it')


# ----------------------------------------------------------------------- S12
def s12(R, sc):
    for e in sc.ends:
        R.need(e.kind not in ('ValueError', 'AssertionError', 'FieldError'), sc, e, 'wrapped',
               f'a user {e.kind} escapes the operation')
        other = [x for x in e.ev if x[2][2] == 'Other'] or [x for x in e.st.wev if x[0] == 'u' and x[2][2] == 'Other']
        if other:
            R.need(e.kind == 'Other', sc, e, 'not-swallowed',
                   f'an unexpected exception of {other[0][1]} ends as {e.kind}')
        bad = e.fails('load', 'dump', 'w*', 'r*', 'default')
        if bad and e.kind not in HARD:
            R.need(e.kind in ('Other', 'FrozenError'), sc, e, 'wrapped',
                   f'an error raised by {bad[0][1]} ends as {e.kind}')
        if e.kind in HARD and bad:
            vf = code(sc, e, 'ERR_VALIDATION_FAILED')
            errs, weak = e.errors()
            for x in bad:
                R.need(errs is not None and contains(errs, *message_of(e, x, vf)), sc, e, 'message-kept',
                       f'the message of the error raised by {x[1]} is lost')


# ----------------------------------------------------------------------- S13
def s13(R, sc):
    for e in sc.ends:
        R.need(e.kind != 'VE-stale', sc, e, 'configured-class',
               'raises the class of the configuration at import time')
        R.need(e.kind in ('ok', 'VE', 'VE-stale', 'Other', 'FrozenError'), sc, e, 'configured-class',
               f'a failure is reported by raising {e.kind}')


# ----------------------------------------------------------------------- S14
def s14(R, sc):
    for e in sc.ends:
        pi = e.events('post_init')
        if sc.op == 'construct':
            for x in e.events('load', 'w*', 'r*'):
                R.need(x[9] == C(False), sc, e, 'not-update-in-construction',
                       f'is_update() is {show(x[9])} in {x[1]} during construction')
            if e.kind == 'ok':
                R.need(len(pi) == 1, sc, e, 'post-init-once', f'the post-init hook runs {len(pi)} times')
                R.need(all(x[9] == C(True) and x[8] == e.val for x in pi), sc, e, 'post-init-after-status',
                       'the post-init hook runs before the schema reports itself initialised')
                ctx = e.read(e.val, 'context')
                r = {v for _, v in e.call(ctx, 'is_initialized', ())} if ctx else set()
                R.need(r == {TRUE}, sc, e, 'initialized', 'a constructed schema does not report itself initialised')
                R.need(not e.fails('load', 'w*', 'r*', 'default'), sc, e, 'post-init-on-success',
                       'construction completes despite a failure')
            else:
                if not pi:
                    for me in dict.fromkeys(x[8] for x in e.events('load', 'w*', 'r*')):
                        if me[0] == 'r' and me[1] in e.st.heap:
                            ctx = e.read(me, 'context')
                            r = {v for _, v in e.call(ctx, 'is_initialized', ())} if ctx else set()
                            R.need(r == {FALSE}, sc, e, 'initialized-only-on-success',
                                   'a schema whose construction failed reports itself initialised')
                R.need(not pi or pi[-1][2] == C('Other'), sc, e, 'post-init-on-success',
                       'the post-init hook runs although construction fails')
            for x in pi:
                R.need(e.ev.index(x) == len(e.ev) - 1 or pi[-1][2] == C('Other'), sc, e, 'post-init-last',
                       'the post-init hook runs before validation is complete')
        elif sc.op == 'copy':
            R.need(not pi, sc, e, 'post-init-once', 'the post-init hook runs although nothing is constructed from data')
            ctx = e.read(e.val, 'context') if e.kind == 'ok' and e.val[0] == 'r' else None
            r = {v for _, v in e.call(ctx, 'is_initialized', ())} if ctx else set()
            R.need(r == {TRUE}, sc, e, 'initialized', 'the copy of an initialised schema does not report itself initialised')
        else:
            for x in e.events('load', 'w*', 'r*'):
                R.need(x[9] == C(True), sc, e, 'update-afterwards',
                       f'is_update() is {show(x[9])} in {x[1]} after construction')
            R.need(not pi, sc, e, 'post-init-once', 'the post-init hook runs again')
            if sc.inst:
                ctx = e.read(sc.inst, 'context')
                r = {v for _, v in e.call(ctx, 'is_initialized', ())} if ctx else set()
                R.need(r == {TRUE}, sc, e, 'initialized', 'a schema no longer reports itself initialised')


# ----------------------------------------------------------------------- S15
def s15(R, sc):
    both = sc.p.get('sel') == 'include exclude'
    for e in sc.ends:
        R.need(e.value() == sc.before_focus and (sc.solo or e.value(name=NO) == sc.before_other), sc, e,
               'dump-changes-nothing', 'dumping changes a stored value')
        if both:
            R.need(e.kind == 'TypeError', sc, e, 'both-selections', f'include and exclude together end with {e.kind}')
            continue
        R.need(e.kind in ('ok', 'Other') + HARD, sc, e, 'ends-definitely', f'dumping ends with {e.kind}')
        if e.kind != 'ok':
            continue
        has = sc.p.get('has', True)
        sel = sc.selected(e)
        if has:
            R.need(sel is not None, sc, e, 'selection-decided', 'a field with a value is not considered')
        got = [x for x in e.events('dump') if x[2][2] == 'ret']
        r = set()
        if e.val[0] == 'r' and e.st.heap.get(e.val[1]) is not None and e.st.heap[e.val[1]].kind == 'dict':
            for s, x in sc.it.dict_get(e.st.copy(), e.val, DS):
                r.add(x)
        else:
            R.need(False, sc, e, 'returns-dict', 'dump does not return a dictionary')
            continue
        if has and sel:
            R.need(r == {('hit', D)} or r == {('hit', NONE)} and e.isnone(L0) is True, sc, e, 'entry-emitted',
                   f'a selected field with a value is dumped as {show({x[-1] if x[0] == "hit" else C("nothing") for x in r})}')
            if e.isnone(L0) is not True:
                R.need(got and all(x[4] == L0 for x in got), sc, e, 'serializer-sees-value',
                       'the serializer is not applied to the current value')
        else:
            R.need(r == {('miss',)}, sc, e, 'nothing-else-emitted', 'an unset or unselected field is dumped')
        if sc.solo:
            o = e.st.heap[e.val[1]]
            R.need(len(o.strong) == (1 if has and sel else 0) and not o.weak and not o.others, sc, e,
                   'nothing-else-emitted', 'the dumped data holds other entries')


# ----------------------------------------------------------------------- S16
def s16(R, sc):
    how, has, dflt = sc.p['how'], sc.p.get('has', True), sc.p.get('dflt')
    for e in sc.ends:
        if how == 'class':
            R.need(e.kind == 'ok' and e.val == sc.f, sc, e, 'class-access', 'reading from the class is not the field')
        elif how == 'unknown':
            R.need(e.kind == 'RuntimeError', sc, e, 'unknown-name', f'a name that is no field ends with {e.kind}')
        elif has:
            R.need(e.kind == 'ok' and e.val == L0, sc, e, 'current-value',
                   f'reading gives {show(e.val) if e.kind == "ok" else e.kind} instead of the stored value')
        elif dflt:
            R.need(e.kind == 'ok' and e.val == sc.fallback(), sc, e, 'default-when-unset',
                   f'reading an unset field with a default gives {show(e.val) if e.kind == "ok" else e.kind}')
        else:
            fns = ('cls', sc.repo.require_class('oblate.exceptions', 'FieldNotSet'))
            ok = e.exc is not None and e.exc[0] == 'r' and sc.it.issub(e.st.heap[e.exc[1]].cls, fns, e.st) is True \
                and sc.it.issub(e.st.heap[e.exc[1]].cls, H(AttributeError), e.st) is True
            R.need(ok, sc, e, 'unset-error', f'reading an unset field ends with {e.kind}')


# ----------------------------------------------------------------------- S19
def reach(st, roots, stop=()):
    seen, todo = set(), list(roots)
    while todo:
        u = todo.pop()
        if u in seen or u in stop or u not in st.heap:
            continue
        seen.add(u)
        todo.extend(st.heap[u].refs())
    return seen


def s19(R, sc):
    for e in sc.ends:
        if not R.need(e.kind == 'ok' and e.val[0] == 'r', sc, e, 'copy-completes', f'copying ends with {e.kind}'):
            continue
        new, old = e.val, sc.inst
        st = e.st
        R.need(new != old and st.heap[new[1]].cls == st.heap[old[1]].cls, sc, e, 'same-class',
               'the copy is not a new object of the same class')
        R.need(e.value(new) == sc.before_focus and (sc.solo or e.value(new, NO) == sc.before_other), sc, e, 'same-values',
               f'the copy has {show(e.value(new))}')
        R.need(e.value(old) == sc.before_focus and (sc.solo or e.value(old, NO) == sc.before_other), sc, e, 'original-kept',
               'copying changes the original')
        c1, c0 = e.read(new, 'context'), e.read(old, 'context')
        R.need(c1 is not None and c1 != c0 and e.read(c1, 'schema') == new, sc, e, 'own-context',
               'the copy has no context of its own')
        R.need(e.read(c0, 'schema') == old, sc, e, 'original-context', 'copying rebinds the context of the original')
        if c1 is not None:
            r = {v for _, v in e.call(c1, 'is_initialized', ())}
            R.need(r == {TRUE}, sc, e, 'copy-initialized', 'the copy does not report itself initialised')
            s1, s0 = e.read(c1, 'state'), e.read(c0, 'state')
            ok = s1 is not None and s0 is not None and s1[0] == 'r' and s1 != s0
            R.need(ok, sc, e, 'own-state', 'the copy shares the state of the original')
            if ok:
                a, b = st.heap[s1[1]], st.heap[s0[1]]
                R.need(a.kind == b.kind and a.strong == b.strong and a.others == b.others and a.weak == b.weak,
                       sc, e, 'state-copied', 'the state of the copy differs')
        share = {u for u in sc.allowed if u != old[1]} & reach(st, [new[1]], {old[1]})
        share = {u for u in share if st.heap[u].kind in ('dict', 'list', 'set', 'inst')}
        R.need(not share, sc, e, 'nothing-shared', 'the copy shares mutable objects with the original: ' +
               ', '.join(st.heap[u].kind for u in share))


# ----------------------------------------------------------------------- S20
def s20(R, sc):
    allowed = getattr(sc, 'allowed', set())
    seen = set()
    R.obligations += len(sc.ends)
    for loc, target, what, st in sc.mutations:
        if target[0] == 'r' and target[1] in allowed:
            continue
        if (loc, what) in seen:
            continue
        seen.add((loc, what))
        if sc.op in ('dump', 'get', 'copy'):
            pass
        R.need(False, sc, None, 'writes-only-own-state',
               f'{loc}: {what} of an object the operation must not modify: {show(target)}')
    if sc.op in ('dump', 'get', 'copy'):
        for loc, target, what, st in sc.mutations:
            if target[0] == 'r' and target[1] in allowed and (loc, what) not in seen:
                seen.add((loc, what))
                R.need(False, sc, None, 'reading-writes-nothing', f'{loc}: {what} of the schema while only reading')


def jobs_construct(**k):
    return [(Construct, dict(k)), (Construct, dict(k, solo=True))]


ALLOPS = [(Construct, {}), (Construct, dict(default='call')),
          (Construct, dict(given=False, default='call')), (Construct, dict(given=False, unknown=True, ignore='false')),
          (Construct, dict(solo=True)), (Construct, dict(given=False, default='call', solo=True)),
          (Update, {}), (Update, dict(solo=True)), (Update, dict(has=False, solo=True)),
          (Update, dict(given=False, unknown=True, ignore='false')),
          (Assign, {}), (Assign, dict(has=False, solo=True)),
          (Dump, dict(sel='')), (Dump, dict(sel='include', solo=True))]
NOAMB = [(c, dict(k, ambient=False)) for c, k in
         [(Construct, dict(solo=True)), (Construct, dict(given=False, default='call', solo=True)), (Update, dict(solo=True)),
          (Assign, dict(solo=True)), (Dump, dict(sel='', solo=True))]]
UNK = [dict(given=False, unknown=True, ignore=i) for i in ('none', 'sym', 'true', 'false')]

RULES = {
    'S01': (s01, [(Construct, {}), (Construct, dict(solo=True)), (Construct, dict(default='const', solo=True)),
                  (Construct, dict(default='call', solo=True)), (Construct, dict(others='fine', default='call')),
                  (Construct, dict(unknown=True, ignore='sym', solo=True)),
                  (Construct, dict(fmt='all', solo=True))]),
    'S02': (s02, ALLOPS + [(Construct, dict(unknown=True, ignore='sym', solo=True)), (Dump, dict(sel='exclude')),
                           (Dump, dict(sel='include')),
                           (Update, dict(unknown=True, ignore='false', solo=True))]),
    'S03': (s03, [(Update, {}), (Update, dict(has=False)), (Update, dict(solo=True)), (Update, dict(solo=True, has=False)),
                  (Update, dict(given=False, unknown=True, ignore='false')), (Update, dict(fmt='all', solo=True)),
                  (Update, dict(unknown=True, ignore='sym', solo=True))]),
    'S04': (s04, [(Assign, dict(fmt='all')), (Assign, dict(has=False)), (Assign, dict(solo=True)), (Update, {}),
                  (Update, dict(solo=True)), (Update, dict(has=False, solo=True)), (Update, dict(unknown=True, ignore='sym', solo=True)),
                  (Assign, dict(default='const', solo=True)), (Update, dict(default='call', solo=True))]),
    'S05': (s05, [(Assign, {}), (Assign, dict(has=False)), (Assign, dict(solo=True)), (Update, {}), (Update, dict(has=False)),
                  (Update, dict(solo=True)), (Update, dict(given=False, solo=True)),
                  (Update, dict(given=False, unknown=True, ignore='false', solo=True)),
                  (Update, dict(unknown=True, ignore='false', solo=True))]),
    'S06': (s06, [(Construct, dict(given=g, default=d, solo=s)) for g in (False, True) for d in ('none', 'const', 'call')
                  for s in (True, False) if not (g and not s)] + [(Construct, dict(default='const')),
                                                                  (Construct, dict(given=False, default='None', solo=True))]),
    'S07': (s07, [(Construct, {}), (Construct, dict(solo=True)), (Construct, dict(default='const', solo=True)),
                  (Update, {}), (Update, dict(solo=True)), (Update, dict(has=False, solo=True)),
                  (Assign, {}), (Assign, dict(solo=True)), (Assign, dict(has=False, solo=True))] +
                 [(c, dict(default=d, solo=True)) for c in (Construct, Update, Assign) for d in ('None', 'call')]),
    'S08': (s08, [(Construct, dict(u, solo=s)) for u in UNK for s in (True, False)] +
            [(Update, dict(u, solo=s)) for u in UNK for s in (True, False)] +
            [(Construct, dict(UNK[0], given=True, solo=True)), (Construct, dict(UNK[1], given=True, solo=True)),
             (Update, dict(UNK[0], given=True, solo=True)), (Update, dict(UNK[1], given=True, solo=True))]),
    'S09': (s09, [(Construct, {}), (Construct, dict(solo=True)), (Construct, dict(default='call')), (Update, {}), (Assign, {}),
                  (Update, dict(solo=True)), (Assign, dict(solo=True))]),
    'S10': (s10, ALLOPS + NOAMB + [(Get, dict(how='attr')), (Copy, {}), (Dump, dict(sel='exclude'))]),
    'S11': (s11, ALLOPS + NOAMB),
    'S12': (s12, ALLOPS),
    'S13': (s13, ALLOPS),
    'S14': (s14, [(Construct, {}), (Construct, dict(solo=True)), (Construct, dict(default='call')),
                  (Construct, dict(given=False, default='call')), (Construct, dict(given=False, default='call', solo=True)),
                  (Construct, dict(unknown=True, ignore='sym', solo=True)),
                  (Update, {}), (Update, dict(solo=True)), (Assign, {}), (Copy, {})]),
    'S15': (s15, [(Dump, dict(sel=x, has=h, solo=s)) for x in ('', 'include', 'exclude') for h in (True, False)
                  for s in (True, False)] + [(Dump, dict(sel='include exclude'))]),
    'S16': (s16, [(Get, dict(how=h, has=has, **d)) for h in ('attr', 'name', 'key', 'unknown') for has in (True, False)
                  for d in (({},) if h == 'attr' else ({}, dict(dflt=True), dict(dflt='None'), dict(dflt='zero'), dict(dflt='empty'), dict(dflt='no')))] + [(Get, dict(how='class'))]),
    'S19': (s19, [(Copy, {}), (Copy, dict(has=False)), (Copy, dict(solo=True))]),
    'S20': (s20, ALLOPS + [(Get, dict(how=h)) for h in ('attr', 'name', 'key')] +
            [(Copy, {}), (Dump, dict(sel='exclude')), (Construct, dict(given=False, unknown=True, ignore='sym')),
             (Update, dict(given=False, unknown=True, ignore='sym'))]),
}


COMMON = [
    'user code (serializers, deserializers, validators, hooks, mappings, formatters) is opaque: it may return or raise '
    'anything, but does not reach into private attributes of the library',
    'one field, key and validator is followed exactly and stands for any; all others are summarised',
    'Python semantics as modelled in sa/models.py for the built-ins, contextvars, copy and collections used',
    'schemas have the default metaclass, and preprocess_data returns a mapping (another mapping than it was given)']
EXPLAIN = {
    'S01': 'Every way construction can complete or fail, for any data, field options and user code.',
    'S02': 'Every validation error construction, update, assignment and dumping can raise, against the failures that happened before.',
    'S03': 'Every exception update can end with, against the stored values before it.',
    'S04': 'Every way assignment and update can end, against the verdicts of the checks.',
    'S05': 'Every way assignment and update can end, against the frozen declarations consulted.',
    'S06': 'Every way construction can end with the field absent, for every kind of default.',
    'S07': 'Every way construction, assignment and update can treat None.',
    'S08': 'Every way construction and update can treat an unknown key, for each source of the setting.',
    'S09': 'Arguments and order of all calls to deserializers and validators.',
    'S10': 'The context variables of the package in every state an operation ends in.',
    'S11': 'The context variables during each call of user code, and the stamps of every error raised.',
    'S12': 'The fate of each exception user code may raise.',
    'S13': 'The class of every validation failure raised.',
    'S14': 'The initialisation status seen by user code and after the operation; calls of the post-init hook.',
    'S15': 'The dictionary returned by dump for each selection.',
    'S16': 'Every way of reading a field.',
    'S19': 'The object graph of a copy and of its original.',
    'S20': 'Every write to an object existing before the operation.',
}
FLOOR = {}


def _jobs(pid):
    from .registry import Job
    fn, specs = RULES[pid]
    specs = specs + inherit(specs, pid in ('S01', 'S02', 'S04', 'S07', 'S09'))
    return lambda tier: [Job(c, k, fn) for c, k in (deep(specs) if tier == 'thorough' else specs)]


def inherit(specs, few=False):
    """One scenario of every operation in which the field is declared by a parent class, and some in which
    it has validators of one kind only, or none."""
    out = {}
    for c, k in sorted(specs, key=lambda x: not x[1].get('solo')):
        out.setdefault(c, dict(k, solo=True, inherited=True))
    more = [(c, dict(solo=True, vals=v)) for c in out if c.op in ('construct', 'update', 'assign') for v in ('plain', 'raw', 'no')]
    return list(out.items()) + (more if few else [])


def deep(specs):
    """Every combination of the scenario parameters that occur for an operation, with
    hooks that may fail (fmt) and with and without an operation already in progress (ambient)."""
    out, ops = list(specs), {}
    for c, k in specs:
        if 'vals' in k:
            continue
        dims = ops.setdefault(c, {})
        k = dict(k)
        pair = {x: k.pop(x) for x in ('unknown', 'ignore', 'given') if x in k}
        for key, v in [(x, {x: y}) for x, y in k.items()] + [('data', pair)]:
            vals = dims.setdefault(key, [{}])
            if v not in vals:
                vals.append(v)
    for c, dims in ops.items():
        dims.setdefault('fmt', [{}])
        if c.op in ('construct', 'update', 'assign'):
            dims['fmt'] = [{}, dict(fmt='all')]
        dims['ambient'] = [{}, dict(ambient=False)]
        for combo in itertools.product(*dims.values()):
            k = {}
            for d in combo:
                k.update(d)
            if (c, k) not in out and (k.get('solo') or not k.get('inherited')):
                out.append((c, k))
    return out


TABLE = {p: dict(jobs=_jobs(p), explain=EXPLAIN[p], floor=FLOOR.get(p, 5), assume=COMMON,
                 mods=[RULES[p][0], accepted] if p in ('S01', 'S04') else [RULES[p][0]]) for p in RULES}
