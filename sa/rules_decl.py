"""Declarations: the options of a field (A01) and of the global configuration (G01)."""
from .engine import C, H, NONE, TRUE, FALSE, Obj, S, is_raise
from .ops import DS, KS, NODE
from .repo import AnalysisBroken
from .rules_class import Classes, N2
from . import rules_values
from .registry import Job

DK = S('data key*', 'name')
LK, PK = S('load key*', 'name'), S('dump key*', 'name')
DEF = S('given default*', 'plain')
EXTRA = ((C('k'), S('extra*', 'plain')),)
FLAGS = {n: S('opt.' + n, 'bool') for n in ('none', 'frozen', 'required')}


class Declare(Classes):
    """Two fields of one class are created with the same options, and the first is declared in a schema."""
    op = 'declare'

    @classmethod
    def weight(cls, kw):
        return 1

    def name(self):
        return f'{self.p["spec"] or "Field"}: ' + super().name()

    def make_setup(self):
        sp = self.p['spec']
        if sp is None:
            return super().make_setup()
        return rules_values.ValueSetup(self.repo, sp, default='none', ambient=True, solo=True, required=False)

    def create(self, st, tag, kw):
        sp = self.p['spec']
        args, more = sp.args(self.it, st) if sp else ((), {})
        with self.at(tag):
            return self.it.call(st, self.su.ufield, args, dict(kw, **more), NODE)

    def run(self, st, f, cls):
        it, p = self.it, self.p
        for n, a in enumerate((DK, LK, PK)):
            for b in ((DK, LK, PK)[:n] + (N2,)):
                st.facts[('eq', a, b)] = st.facts[('eq', b, a)] = False
        kw = {}
        self.given = set(p['opts'])
        for o in p['opts']:
            kw[o] = FLAGS.get(o) or {'default': p.get('value', DEF), 'load_key': LK, 'dump_key': PK, 'data_key': DK}.get(o)
            if o == 'extras':
                self.extras = kw[o] = it.alloc(st, Obj('dict', strong=() if p.get('empty') else EXTRA), NODE, 'extras')
                st.pins = st.pins + (self.extras,)
        self.kw = kw
        done = []
        for s, g in self.create(st, 'g', kw):
            if not is_raise(g):
                s.pins = s.pins + (g,)
                done += [(s2, g, h) for s2, h in self.create(s, 'h', kw)]
            else:
                done.append((s, g, g))
        for s, g, h in done:
            w = self.view()
            w.g, w.h = g, h
            w.begin(s)
            if is_raise(h):
                w.finish([(s, h)])
                continue
            s.pins = s.pins + (g, h)
            w.finish(w.subclass(s, (w.w.schema_cls,), ((N2, g),), 'User2'))


def truth(e, v):
    r = {b for s, b in e.sc.it.truth(e.st.copy(), v)}
    return r.pop() if len(r) == 1 else None


def a01(R, sc):
    for e in sc.ends:
        if not R.need(e.kind == 'ok', sc, e, 'declarable', f'declaring a field with {", ".join(sorted(sc.given)) or "no option"} ends with {e.kind}'):
            continue
        g, kw = sc.g, sc.kw

        def same(name, want, rule, what):
            got = e.read(g, name)
            R.need(got is not None and (got == want or name in FLAGS and truth(e, got) is not None and truth(e, got) == truth(e, want)),
                   sc, e, rule, what + f' (given: {", ".join(sorted(sc.given)) or "no option"})')
        for o in ('none', 'frozen'):
            same(o, kw.get(o, FALSE), 'flags', f'the option {o} is not what the field was created with')
        if 'default' in kw:
            same('required', FALSE, 'required', 'a field with a default is required')
            same('default', kw['default'], 'default', 'the default is not the one given')
        else:
            same('required', kw.get('required', TRUE), 'required', 'the field is not required exactly as declared')
            same('default', NONE, 'default', 'a field without default has one')
        with sc.probing():
            r = {x for _, x in call(sc, e.st, g, 'has_default')}
        R.need(r == {C('default' in kw)}, sc, e, 'default', 'has_default() is wrong')
        for o in ('load_key', 'dump_key'):
            same(o, kw.get('data_key', kw.get(o, N2)), 'keys', f'the {o} is not that of the declaration')
        same('name', N2, 'bound', 'the field has another name than it was declared with')
        same('schema', e.val, 'bound', 'the field belongs to another schema')
        x, y = e.read(g, 'extras'), e.read(sc.h, 'extras')
        if 'extras' in kw:
            R.need(x == kw['extras'] and e.st.heap[x[1]].exact() and e.st.heap[x[1]].strong == (() if sc.p.get('empty') else EXTRA), sc, e, 'extras', 'the extras are not the dictionary given')
        else:
            R.need(x is not None and x[0] == 'r' and e.st.heap[x[1]].kind == 'dict' and e.st.heap[x[1]].exact() and
                   not e.st.heap[x[1]].strong, sc, e, 'extras', 'a field without extras does not start with an empty dictionary')
            R.need(x != y, sc, e, 'extras', 'two fields share one dictionary of extras')


def call(sc, st, v, name, args=()):
    from .rules_class import call as c
    return c(sc, st, v, name, args)


OPTS = [(), ('none',), ('frozen',), ('required',), ('default',), ('default', 'required'), ('load_key',), ('dump_key',), ('data_key',),
        ('load_key', 'dump_key'), ('data_key', 'load_key'), ('data_key', 'dump_key'), ('data_key', 'load_key', 'dump_key'), ('extras',),
        ('none', 'frozen', 'required', 'extras', 'data_key')]


def specs():
    V = rules_values
    return [V.P(c) for c in V.P.HOST] + list(V.lenient()) + [s for s in V.tspecs() if s.fmt] + [V.N(False), V.N(True)]


def jobs_a01(tier):
    out = []
    for o in OPTS:
        out.append(Job(Declare, dict(spec=None, opts=o, solo=True), a01))
    for v in (NONE, FALSE, C('')):
        out.append(Job(Declare, dict(spec=None, opts=('default',), value=v, solo=True), a01))
    out.append(Job(Declare, dict(spec=None, opts=('extras',), empty=True, solo=True), a01))
    for sp in specs():
        for o in OPTS:
            out.append(Job(Declare, dict(spec=sp, opts=o, solo=True), a01))
    return out


# ------------------------------------------------------------------------ G01
ERR, WARN = 'validation_error_cls', 'warn_unsupported_types'
BIT = S('switch*', 'bool')


class Options(Classes):
    """Two configuration objects are created and options of the first are set."""
    op = 'options'

    def run(self, st, f, cls):
        it, w = self.it, self.w
        mine = it.alloc(st, Obj('class', None, {'__name__': C('MyError')}, strong=(w.ve_cls,)), NODE, 'mine')
        alien = it.alloc(st, Obj('class', None, {'__name__': C('Alien')}, strong=(H(Exception),)), NODE, 'alien')
        deep = it.alloc(st, Obj('class', None, {'__name__': C('DeepError')}, strong=(mine,)), NODE, 'deep')
        st.pins = st.pins + (mine, alien, deep)
        self.vals = {'mine': mine, 'deep': deep, 'base': w.ve_cls, 'alien': alien, 'none': NONE, 'text': C('x'), 'bit': BIT, 'on': TRUE, 'off': FALSE,
                     'one': C(1), 'zero': C(0), 'empty': C('')}
        gc = ('cls', self.repo.require_class('oblate.configs', 'GlobalConfig'))
        kw = {o: self.vals[v] for o, v in self.p.get('ctor', ())}
        todo = [(st, None, None, None)]
        for tag, k in (('g', kw), ('h', {})):
            nxt = []
            for s, g, h, bad in todo:
                if bad:
                    nxt.append((s, g, h, bad))
                    continue
                with self.at(tag):
                    for s2, v in it.call(s, gc, (), k, NODE):
                        if is_raise(v):
                            nxt.append((s2, g, h, v))
                        else:
                            s2.pins = s2.pins + (v,)
                            nxt.append((s2,) + ((v, h) if tag == 'g' else (g, v)) + (None,))
            todo = nxt
        self.want = {ERR: w.ve_cls, WARN: TRUE, **kw}
        for s, g, h, bad in todo:
            v = self.view()
            v.g, v.h, v.refused = g, h, []
            v.begin(s)
            states = [(s, bad, ())]
            if not bad:
                for n, (o, x) in enumerate(self.p.get('sets', ())):
                    states = [(s3, b2, log + ((o, x, b2 is not None),)) for s2, b, log in states
                              for s3, b2 in [(a, c) for a, c in it.set_attr(s2, g, o, self.vals[x], NODE)]]
            for s2, b, log in states:
                n = len(v.ends)
                v.finish([(s2, NONE if not bad else bad)])
                for e in v.ends[n:]:
                    e.log = log


GOOD = {ERR: ('mine', 'base', 'deep'), WARN: ('bit', 'on', 'off')}


def g01(R, sc):
    for e in sc.ends:
        bad_ctor = [o for o, v in sc.p.get('ctor', ()) if v not in GOOD[o]]
        if bad_ctor or not R.need(e.exc is None, sc, e, 'creatable', f'creating a configuration ends with {e.kind}'):
            R.need(e.exc is not None, sc, e, 'refused', f'a {" and ".join(bad_ctor)} of the wrong kind is accepted at creation')
            continue
        want = dict(sc.want)
        for o, v, raised in e.log:
            if v in GOOD[o]:
                R.need(not raised, sc, e, 'stored', f'a proper {o} is refused')
                want[o] = sc.vals[v]
            else:
                R.need(raised, sc, e, 'refused', f'a {o} of the wrong kind is accepted')
        for o in want:
            got = e.read(sc.g, o)
            R.need(got is not None and (got == want[o] or want[o] == BIT and truth(e, got) is not None and truth(e, got) == truth(e, BIT)),
                   sc, e, 'stored', f'{o} is not what was set last')
        for o, v in ((ERR, sc.w.ve_cls), (WARN, TRUE)):
            R.need(e.read(sc.h, o) == v, sc, e, 'own-options', f'the {o} of another configuration is not the default')


def jobs_g01(tier):
    ps = [dict()]
    for o in (ERR, WARN):
        for v in GOOD[o]:
            ps += [dict(ctor=((o, v),)), dict(sets=((o, v),))]
        for v in ('alien', 'none', 'text') if o == ERR else ('none', 'text', 'one', 'zero', 'empty'):
            ps += [dict(ctor=((o, v),)), dict(sets=((o, v),))]
    ps += [dict(sets=((WARN, 'off'), (WARN, 'one'))), dict(sets=((WARN, 'off'), (WARN, 'on'))), dict(sets=((WARN, 'off'), (ERR, 'alien'))),
           dict(sets=((ERR, 'mine'), (WARN, 'off'))), dict(sets=((WARN, 'off'), (ERR, 'mine'))), dict(sets=((ERR, 'mine'), (ERR, 'alien'))),
           dict(sets=((ERR, 'mine'), (WARN, 'none'))), dict(sets=((ERR, 'mine'), (ERR, 'base'))), dict(sets=((ERR, 'mine'), (ERR, 'deep'))), dict(sets=((ERR, 'deep'), (ERR, 'mine'))),
           dict(sets=((WARN, 'off'), (WARN, 'off'))), dict(sets=((WARN, 'on'), (WARN, 'off'), (WARN, 'on'))), dict(ctor=((ERR, 'mine'), (WARN, 'off'))),
           dict(ctor=((ERR, 'mine'), (WARN, 'off')), sets=((ERR, 'none'), (WARN, 'text')))]
    return [Job(Options, dict(solo=True, **k), g01) for k in ps]


TABLE = {
    'G01': dict(jobs=jobs_g01, explain='Every sequence of settings of the global options listed, and what two configuration objects report.',
                floor=20, assume=['a class offered as error class is a subclass of the validation error or not'], mods=[g01]),
    'A01': dict(jobs=jobs_a01, explain='Every combination of options a field of every class can be created with, and what it reports.',
                floor=30, assume=['options are of the documented types'], mods=[a01]),
}
