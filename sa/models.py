"""Transfer functions of the standard library operations the package may use."""
import ast
import builtins
import contextlib
import contextvars
import copy as _copy
import functools
import inspect
import itertools
import re
import types
import typing
import warnings
import collections
import collections.abc

from .engine import (C, H, NONE, TRUE, FALSE, Obj, S, Space, has_old, held, is_raise, mentions_old, old)

MODELS = {}


def model(*objs):
    def deco(f):
        for o in objs:
            MODELS[o] = f
        return f
    return deco


def own_flags(o):
    """The flags a copy of an object keeps."""
    return frozenset(f for f in o.flags if f != 'user' and not isinstance(f, tuple))


def coll_obj(st, v, kinds=('list', 'set', 'dict')):
    if v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind in kinds:
        return st.heap[v[1]]
    return None


def sym(it, node, head, *parts, tag='any'):
    if any(has_old(p) for p in parts if isinstance(p, tuple)):
        return old(tag)
    return ('s', (head,) + parts, tag)


# ------------------------------------------------------------------ builtins
@model(isinstance)
def m_isinstance(it, st, args, kw, node):
    return [(s, r if is_raise_res(r) else C(r)) for s, r in it.isinstance_(st, args[0], args[1])]


def is_raise_res(r):
    return isinstance(r, tuple) and r and r[0] == '!'


def is_class_value(st, v):
    if v[0] == 'cls':
        return True
    if v[0] == 'H':
        return isinstance(v[1].obj, type)
    if v[0] == 'r':
        o = st.heap.get(v[1])
        return o is not None and o.kind == 'class'
    if v[0] == 's':
        return True if v[2] == 'class' else None if v[2] == 'any' else False
    if v[0] == 'o':
        return True if v[1] == 'class' else None if v[1] == 'any' else False
    return False


@model(issubclass)
def m_issubclass(it, st, args, kw, node):
    a, b = args
    if b[0] == 't':
        sts = [(st, FALSE)]
        for c in b[1]:
            nxt = []
            for s, r in sts:
                nxt.extend(m_issubclass(it, s, (a, c), {}, node) if r == FALSE else [(s, r)])
            sts = nxt
        return sts
    ic = is_class_value(st, a)
    if ic is False:
        if a[0] == 'H' and b[0] == 'H':
            try:
                return [(st, C(issubclass(a[1].obj, b[1].obj)))]
            except TypeError:
                pass
        return [it.raise_(st, TypeError, node)]
    if a[0] in ('cls', 'H', 'r'):
        r = it.issub(a, b, st)
        if r is not None:
            return [(st, C(r))]
    d = getattr(it.world, 'decide_issub', lambda *x: None)(it, st, a, b)
    if d is not None:
        return [(st, C(d))]
    if has_old(a):
        return [(st.copy(), TRUE), (st, FALSE)]
    return [(s, C(r)) for s, r in it.fork(st, ('issub', a, b))]


def _kind_test(*kinds):
    def m(it, st, args, kw, node):
        v = args[0]
        if v[0] == 's' and v[-1] in ('callable', 'validator'):
            return [(s, C(b) if isinstance(b, bool) else b) for s, b in it.isinstance_(st, v, ('t', tuple(H(k) for k in kinds)))]
        if v[0] in ('fn', 'bm', 'hm'):
            return [(st, C((types.MethodType if v[0] != 'fn' else types.FunctionType) in kinds))]
        if v[0] == 'H':
            return [(st, C(isinstance(v[1].obj, kinds)))]
        if v[0] in 'so':
            return [(st.copy(), TRUE), (st, FALSE)]
        return [(st, FALSE)]
    return m


model(inspect.isfunction)(_kind_test(types.FunctionType))
model(inspect.ismethod)(_kind_test(types.MethodType))
model(inspect.isbuiltin)(_kind_test(types.BuiltinFunctionType))
model(inspect.isroutine)(_kind_test(types.FunctionType, types.MethodType, types.BuiltinFunctionType))


@model(inspect.isclass)
def m_isclass(it, st, args, kw, node):
    r = is_class_value(st, args[0])
    if args[0][0] == 's' and args[0][-1] in ('callable', 'validator'):
        return [(s, C(b) if isinstance(b, bool) else b) for s, b in it.isinstance_(st, args[0], H(type))]
    if r is not None:
        return [(st, C(r))]
    if has_old(args[0]):
        return [(st.copy(), TRUE), (st, FALSE)]
    return [(s, C(b)) for s, b in it.fork(st, ('isclass', args[0]))]


@model(callable)
def m_callable(it, st, args, kw, node):
    v = args[0]
    t = v[0]
    if t in ('fn', 'bm', 'hm', 'cls', 'partial'):
        return [(st, TRUE)]
    if t == 'H':
        return [(st, C(callable(v[1].obj)))]
    if t == 'r':
        o = st.heap.get(v[1])
        if o is not None and o.kind == 'class':
            return [(st, TRUE)]
        if o is not None and o.kind == 'inst' and o.cls[0] in ('cls', 'H', 'r'):
            c, e = it.class_lookup(o.cls, '__call__', st)
            return [(st, C(e is not None))]
        return [(st, FALSE)]
    if t in 'so':
        tag = v[-1]
        if tag in ('callable', 'validator', 'class'):
            return [(st, TRUE)]
        if tag not in ('any', 'optany'):
            return [(st, FALSE)]
        if has_old(v):
            return [(st.copy(), TRUE), (st, FALSE)]
        if it.is_none_fact(st, v):
            return [(st, FALSE)]
        return [(s, C(b)) for s, b in it.fork(st, ('callable', v))]
    return [(st, FALSE)]


def is_attribute_error(it, st, e):
    if e[0] != 'r' or e[1] not in st.heap:
        return False
    o = st.heap[e[1]]
    if o.cls[0] == 'other':
        return False
    return bool(it.issub(o.cls, H(AttributeError), st))


def symbolic_any(v):
    return v[0] in 'so' and v[-1] in ('any', 'optany', 'callable', 'validator')


@model(getattr)
def m_getattr(it, st, args, kw, node):
    v, name = args[0], args[1]
    if name[0] != 'c':
        r = getattr(it.world, 'dyn_getattr', lambda *a: None)(it, st, v, name, args[2:], node)
        if r is not None:
            return r
        if len(args) > 2:
            return [(st.copy(), sym(it, node, 'getattr', v, name)), (st, args[2])]
        return [(st, sym(it, node, 'getattr', v, name))]
    if len(args) == 2:
        return it.get_attr(st, v, name[2], node)
    r = it.world.attr(it, st, v, name[2], node)
    if r is None and symbolic_any(v) and st.env.get(('SA', v, name[2])) is None:
        if has_old(v):
            return [(st.copy(), old('any')), (st, args[2])]
        out = []
        for s, b in it.fork(st, ('hasattr', v, name[2])):
            if b:
                out.extend(it.get_attr(s, v, name[2], node))
            else:
                out.append((s, args[2]))
        return out
    out = []
    for s, x in (r if r is not None else it.get_attr(st, v, name[2], node)):
        if is_raise(x) and is_attribute_error(it, s, x[1]):
            out.append((s, args[2]))
        else:
            out.append((s, x))
    return out


@model(hasattr)
def m_hasattr(it, st, args, kw, node):
    v, name = args
    if name[0] != 'c':
        return [(s, C(b)) for s, b in it.fork(st, ('hasattr', v, name))]
    r = it.world.attr(it, st, v, name[2], node)
    if r is None and symbolic_any(v) and st.env.get(('SA', v, name[2])) is None:
        if has_old(v):
            return [(st.copy(), TRUE), (st, FALSE)]
        return [(s, C(b)) for s, b in it.fork(st, ('hasattr', v, name[2]))]
    out = []
    for s, x in (r if r is not None else it.get_attr(st, v, name[2], node)):
        if is_raise(x):
            out.append((s, FALSE) if is_attribute_error(it, s, x[1]) else (s, x))
        else:
            out.append((s, TRUE))
    return out


@model(setattr)
def m_setattr(it, st, args, kw, node):
    v, name, val = args
    if name[0] == 'c':
        return [(s, x if x is not None else NONE) for s, x in it.set_attr(st, v, name[2], val, node)]
    r = it.world.setattr(it, st, v, name, val, node)
    if r is not None:
        return [(s, x if x is not None else NONE) for s, x in r]
    it.world.mutate(it, st, v, ('attr', name), node)
    if v[0] == 'r' and v[1] in st.heap:
        o = st.heap[v[1]]
        st.heap[v[1]] = o.copy(attrs={**o.attrs, name: val})
        it.show_live(st, v[1], name, val)
    return [(st, NONE)]


@model(object.__setattr__)
def m_obj_setattr(it, st, args, kw, node):
    v, name, val = args
    if name[0] == 'c':
        return [(s, x if x is not None else NONE) for s, x in it.set_attr(st, v, name[2], val, node, raw=True)]
    return m_setattr(it, st, args, kw, node)


@model(delattr)
def m_delattr(it, st, args, kw, node):
    v, name = args
    it.world.mutate(it, st, v, ('attr', name[2] if name[0] == 'c' else name), node)
    if v[0] == 'r' and v[1] in st.heap and name[0] == 'c':
        o = st.heap[v[1]]
        if name[2] not in o.attrs:
            return [it.raise_(st, AttributeError, node)]
        a = dict(o.attrs)
        a.pop(name[2])
        st.heap[v[1]] = o.copy(attrs=a)
    return [(st, NONE)]


@model(object.__new__)
def m_obj_new(it, st, args, kw, node):
    return [(st, it.alloc(st, Obj('inst', args[0], {}), node, ('new', args[0])))]


@model(BaseException.__new__, Exception.__new__, ValueError.__new__)
def m_exc_new(it, st, args, kw, node):
    return new_inst(it, st, args[0], args[1:], node)


@model(BaseException.__init__, Exception.__init__, ValueError.__init__)
def m_exc_init(it, st, args, kw, node):
    return super_host(it, st, args[0], '__init__', args[1:], {}, node)


@model(object.__init__)
def m_obj_init(it, st, args, kw, node):
    return [(st, NONE)]


@model(vars)
def m_vars(it, st, args, kw, node):
    v = args[0]
    if v[0] == 'cls' or (v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind == 'class'):
        return [(st, it.class_dict(st, v, node))]
    if v[0] == 'H' and isinstance(v[1].obj, type):
        return [(st, it.alloc(st, Obj('dict'), node, 'vars'))]
    r = it.world.attr(it, st, v, '__dict__', node)
    if r is not None:
        return r
    if v[0] in 'so':
        return [(st, sym(it, node, 'vars', v))]
    return it.get_attr(st, v, '__dict__', node)


@model(len)
def m_len(it, st, args, kw, node):
    v = args[0]
    if v[0] == 't':
        return [(st, C(len(v[1])))]
    if v[0] == 'c':
        try:
            return [(st, C(len(v[2])))]
        except TypeError:
            return [it.raise_(st, TypeError, node)]
    o = coll_obj(st, v)
    if o is not None and o.exact() and o.ne is not True:
        if o.kind == 'list' or len(o.strong) < 2:
            return [(st, C(len(o.strong)))]
    if v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind == 'inst' and st.heap[v[1]].cls[0] == 'cls':
        c, e = it.class_lookup(st.heap[v[1]].cls, '__len__', st)
        if e is not None and e[0] == 'func':
            return it.inline(st, ('fn', e[1].qual, None), v, (v,), {}, node)
        return [it.raise_(st, TypeError, node)]
    if has_old(v):
        return [(st, old('int'))]
    return [(st, ('len', v))]


def collect(it, st, v, kind, node, k=0):
    """A new collection with everything iterating over v gives."""
    out = []
    for s, sp in it.iter_space(st, v, node):
        if isinstance(sp, tuple):
            out.append((s, sp))
            continue
        if sp.may_raise:
            s2 = s.copy()
            s2.note(f'{it.loc(node)}: the iterated mapping raises')
            out.extend(it.user_raise(s2, 'Other', node))
        o = it.extend_obj(s, Obj(kind), v)
        if kind == 'set':
            seen = []
            for x in o.strong:
                if x not in seen:
                    seen.append(x)
            o = o.copy(strong=tuple(seen))
        out.append((s, it.alloc(s, o, node, ('conv', kind, k))))
    return out


@model(list)
def m_list(it, st, args, kw, node):
    if not args:
        return [(st, it.alloc(st, Obj('list'), node))]
    return collect(it, st, args[0], 'list', node)


@model(tuple)
def m_tuple(it, st, args, kw, node):
    if not args:
        return [(st, ('t', ()))]
    out = []
    for s, v in collect(it, st, args[0], 'list', node):
        if not is_raise(v) and s.heap[v[1]].exact() and s.heap[v[1]].ne is not True:
            v = ('t', s.heap[v[1]].strong)
        out.append((s, v))
    return out


@model(set, frozenset)
def m_set(it, st, args, kw, node):
    if not args:
        return [(st, it.alloc(st, Obj('set'), node))]
    o = coll_obj(st, args[0])
    sts = [(st, True)]
    for x in args[0][1] if args[0][0] == 't' else o.strong if o is not None and o.kind == 'list' else ():
        sts = [r for s, b in sts for r in (it.hashing(s, x) if b is True else [(s, b)])]
    out = []
    for s, b in sts:
        out.extend([(s, b)] if b is not True else collect(it, s, args[0], 'set', node))
    return out


@model(dict, collections.OrderedDict)
def m_dict(it, st, args, kw, node):
    o = Obj('dict')
    out = []
    if args:
        for s, sp in it.iter_space(st, args[0], node):
            if isinstance(sp, tuple):
                out.append((s, sp))
                continue
            if sp.may_raise:
                out.extend(it.user_raise(s.copy(), 'Other', node))
            o2 = it.merge_dict(s, o, args[0])
            for k, v in kw.items():
                o2 = put_(o2, C(k), v)
            out.append((s, it.alloc(s, o2, node)))
        return out
    extra = kw.get('**')
    for k, v in kw.items():
        if k != '**':
            o = put_(o, C(k), v)
    if extra is not None:
        o = it.merge_dict(st, o, extra)
    return [(st, it.alloc(st, o, node))]


def put_(o, k, v):
    from .evaluator import put
    return put(o, k, v)


@model(collections.defaultdict)
def m_defaultdict(it, st, args, kw, node):
    o = Obj('dict', attrs={'!factory': args[0]} if args else {})
    return [(st, it.alloc(st, o, node))]


@model(types.MappingProxyType)
def m_proxy(it, st, args, kw, node):
    return [(st, args[0])]


@model(iter)
def m_iter(it, st, args, kw, node):
    v = args[0]
    if v[0] == 'r' and coll_obj(st, v) is None and v[1] in st.heap and st.heap[v[1]].kind == 'inst':
        return [(s, sp if isinstance(sp, tuple) else v) for s, sp in it.iter_space(st, v, node)]
    # an iterator is a private copy of what remains
    if coll_obj(st, v) is not None:
        o = it.extend_obj(st, Obj('list'), v)
        return [(st, it.alloc(st, o, node, 'iter'))]
    return [(st, v)]


@model(next)
def m_next(it, st, args, kw, node):
    v = args[0]
    o = coll_obj(st, v, ('list', 'set'))
    if o is None:
        out = [(st.copy(), sym(it, node, 'next', v))]
        out.append((st, args[1]) if len(args) > 1 else it.raise_(st, StopIteration, node))
        return out
    if o.exact() and o.ne is not True:
        if not o.strong:
            return [(st, args[1])] if len(args) > 1 else [it.raise_(st, StopIteration, node)]
        st.heap[v[1]] = o.copy(strong=o.strong[1:])
        return [(st, o.strong[0])]
    out = []
    for i, x in enumerate(o.strong):
        s = st.copy()
        s.heap[v[1]] = o.copy(strong=o.strong[:i] + o.strong[i + 1:], ne=None)
        out.append((s, x))
    for x in o.weak:
        out.append((st.copy(), x))
    if o.others:
        out.append((st.copy(), old(o.others[1])))
    if not o.strong:
        out.append((st, args[1]) if len(args) > 1 else it.raise_(st, StopIteration, node))
    return out


@model(enumerate)
def m_enumerate(it, st, args, kw, node):
    return [(st, ('enum', args[0]))]


@model(zip)
def m_zip(it, st, args, kw, node):
    return [(st, ('zip', tuple(args)))]


@model(itertools.count)
def m_count(it, st, args, kw, node):
    return [(st, ('count',))]


@model(reversed, sorted)
def m_sorted(it, st, args, kw, node):
    out = []
    for s, v in collect(it, st, args[0], 'list', node):
        if not is_raise(v) and s.heap[v[1]].exact():
            o = s.heap[v[1]]
            s.heap[v[1]] = o.copy(strong=tuple(reversed(o.strong)))
        out.append((s, v))
    return out


@model(range)
def m_range(it, st, args, kw, node):
    if len(args) == 1 and args[0][0] == 'len':
        return [(st, ('idxrange', args[0][1]))]
    if len(args) == 1:
        args = (C(0), args[0])
    if len(args) == 2 and args[1][0] == 'len' and args[0] == C(0):
        return [(st, ('idxrange', args[1][1]))]
    o = Obj('range', strong=tuple(args[:2]), attrs={'step': args[2] if len(args) > 2 else C(1)})
    return [(st, it.alloc(st, o, node))]


def _quant(want):
    def f(it, st, args, kw, node):
        res = []
        for s, sp in it.iter_space(st, args[0], node):
            if isinstance(sp, tuple):
                res.append((s, sp))
                continue

            def body(s2, item):
                out = []
                for s3, t in it.truth(s2, item):
                    if isinstance(t, tuple):
                        out.append(('X', s3, t[1]))
                    else:
                        out.append(('B' if t is want else 'N', s3, None))
                return out
            exh, broke, outs = it.loop(node, s, sp, body, 'Q')
            res.extend((a, C(not want)) for a in exh)
            res.extend((a, C(want)) for a in broke)
            res.extend((a, ('!', b)) for _, a, b in outs)
        return res
    return f


MODELS[any] = _quant(True)
MODELS[all] = _quant(False)


@model(map)
def m_map(it, st, args, kw, node):
    return _collect_map(it, st, args[0], args[1:], node, False)


@model(filter)
def m_filter(it, st, args, kw, node):
    return _collect_map(it, st, args[0], args[1:], node, True)


def _collect_map(it, st, f, colls, node, is_filter):
    ref = it.alloc(st, Obj('list'), node, 'map')
    tmp = ('MP', it.nk(node), it.ctxid())
    st.env[tmp] = ref
    src = colls[0] if len(colls) == 1 else ('zip', tuple(colls))
    res = []
    for s, sp in it.iter_space(st, src, node):
        if isinstance(sp, tuple):
            res.append((s, sp))
            continue

        def body(s2, item):
            out = []
            call_args = (item,) if len(colls) == 1 else item[1]
            results = [(s2, item)] if f == NONE else it.call(s2, f, call_args, {}, node)
            for s3, v in results:
                if is_raise(v):
                    out.append(('X', s3, v[1]))
                elif is_filter:
                    for s4, t in it.truth(s3, v):
                        if t is True:
                            it.coll_add(s4, s4.env[tmp], item)
                        out.append(('N', s4, None))
                else:
                    it.coll_add(s3, s3.env[tmp], v)
                    out.append(('N', s3, None))
            return out
        exh, broke, outs = it.loop(node, s, sp, body, 'M')
        for a in exh:
            res.append((a, a.env.pop(tmp)))
        for _, a, b in outs:
            a.env.pop(tmp, None)
            res.append((a, ('!', b)))
    return res


@model(sum)
def m_sum(it, st, args, kw, node):
    if len(args) > 1 and coll_obj(st, args[1], ('list',)) is not None:
        o = Obj('list')
        for s, sp in it.iter_space(st, args[0], node):
            if isinstance(sp, tuple):
                return [(s, sp)]
            for x in sp.items:
                o = it.extend_obj(s, o, x)
            for x in sp.weak:
                o = o.copy(weak=o.weak | {old('any')})
            return [(s, it.alloc(s, o, node))]
    return [(st, it.fresh(node, 'sum', 'int'))]


def _minmax(op):
    def f(it, st, args, kw, node):
        if len(args) == 2 and not kw and all(it.is_int(a) for a in args):
            out = []
            for s, b in it.order(st, op, args[0], args[1]):
                out.append((s, b if is_raise_res(b) else args[0] if b else args[1]))
            return out
        try:
            vals = [it.to_host(st, a) for a in args]
            return [(st, it.wrap_host(st, (min if op == '<=' else max)(*vals), node))]
        except Exception:
            return [(st, it.fresh(node, 'minmax'))]
    return f


MODELS[min] = _minmax('<=')
MODELS[max] = _minmax('>=')


def convert(it, st, name, args, node, tag):
    v = args[0]
    out = []
    if v[0] == 'c':
        try:
            return [(st, C(getattr(builtins, name)(*[a[2] for a in args])))]
        except Exception as ex:
            return [it.raise_(st, type(ex), node)]
    r = it.world.conv_raises(it, st, name, v)
    if r:
        for fam in (('ValueError', 'Other') if r is True else r):
            s2 = st.copy()
            s2.note(f'{it.loc(node)}: {name}() raises {fam}')
            out.extend(it.user_raise(s2, fam, node))
    f = getattr(it.world, 'converted', None)
    if f is not None:
        x = f(it, st, name, args, node)
        if x is not None:
            out.append((st, x))
            return out
    if name in ('str', 'repr') and len(args) == 1:
        out.append((st, it.conv_term(st, name, v)))
        return out
    out.append((st, sym(it, node, name, *args, tag=tag)))
    return out


@model(str)
def m_str(it, st, args, kw, node):
    if not args:
        return [(st, C(''))]
    v = args[0]
    if v[0] in 'so' and v[-1] == 'str' and v[0] == 's':
        return [(st, v)]
    return convert(it, st, 'str', args[:1], node, 'str')


@model(repr, ascii, format)
def m_repr(it, st, args, kw, node):
    return convert(it, st, 'repr', args[:1], node, 'str')


@model(int)
def m_int(it, st, args, kw, node):
    return convert(it, st, 'int', args, node, 'int') if args else [(st, C(0))]


@model(float)
def m_float(it, st, args, kw, node):
    return convert(it, st, 'float', args, node, 'float') if args else [(st, C(0.0))]


@model(bool)
def m_bool(it, st, args, kw, node):
    if not args:
        return [(st, FALSE)]
    return [(s, t if is_raise_res(t) else C(t)) for s, t in it.truth(st, args[0])]


@model(type)
def m_type(it, st, args, kw, node):
    if len(args) == 1 and args[0][0] == 's':
        r = it.world.attr(it, st, args[0], '__class__', node)      # what the world says about the class of a symbol
        if r is not None:
            return r
    if len(args) == 3:
        if args[1][0] == 't' and all(b[0] in ('r', 'cls') and it.metaclass(b, st) is None for b in args[1][1]) and args[1][1]:
            return make_class(it, st, None, args[0], args[1], args[2], node, kw)
        return [(st, sym(it, node, 'newclass', *args, tag='class'))]
    v = args[0]
    t = v[0]
    if t == 'c':
        return [(st, H(type(v[2])))]
    if t == 't':
        return [(st, H(tuple))]
    if t == 'r' and v[1] in st.heap:
        o = st.heap[v[1]]
        if o.kind == 'inst':
            if 'user' in o.flags and o.cls[0] in ('H', 'cls'):
                return [(st.copy(), o.cls), (st, S(('subclass', o.cls), 'class'))]
            return [(st, o.cls)]
        if o.kind in ('list', 'dict', 'set'):
            if o.cls is not None and o.cls not in (H(list), H(dict), H(set)):
                return [(st, sym(it, node, 'type', v, tag='class'))]
            return [(st, H({'list': list, 'dict': dict, 'set': set}[o.kind]))]
        if o.kind == 'class':
            m = it.metaclass(v, st)
            return [(st, m if m is not None else H(type))]
    if t == 'cls':
        m = it.metaclass(v, st)
        return [(st, m if m is not None else H(type))]
    if t == 'H':
        return [(st, H(type(v[1].obj)))]
    if t == 's' and ('class', v) in st.facts:
        return [(st, ('H', st.facts[('class', v)]))]
    if t in 'so' and isinstance(v[-1], tuple) and v[-1][0] == 'inst':
        if v[-1][1][0] == 'cls':
            return [(st, sym(it, node, 'type', v, tag='class'))]
    return [(st, sym(it, node, 'type', v, tag='class'))]


@model(id)
def m_id(it, st, args, kw, node):
    return [(st, sym(it, node, 'id', args[0], tag='int'))]


@model(hash)
def m_hash(it, st, args, kw, node):
    v = args[0]
    o = coll_obj(st, v)
    if o is not None:
        return [it.raise_(st, TypeError, node)]
    out = []
    r = it.world.conv_raises(it, st, 'hash', v)
    if r:
        for fam in (('Other',) if r is True else r):
            if fam == 'TypeError':
                out.append(it.raise_(st.copy(), TypeError, node))
            else:
                out.extend(it.user_raise(st.copy(), fam, node))
    if v[0] == 'H':
        try:
            hash(v[1].obj)
        except TypeError:
            return [it.raise_(st, TypeError, node)]
    out.append((st, sym(it, node, 'hash', v, tag='int')))
    return out


@model(dir, print)
def m_none(it, st, args, kw, node):
    return [(st, NONE)]


@model(property)
def m_property(it, st, args, kw, node):
    return [(st, args[0] if args else NONE)]


@model(object)
def m_object(it, st, args, kw, node):
    return [(st, it.alloc(st, Obj('inst', H(object), {}), node))]


# ---------------------------------------------------------------- std modules
@model(_copy.copy)
def m_copy(it, st, args, kw, node):
    v = args[0]
    r = getattr(it.world, 'copy', lambda *a: None)(it, st, v, node)
    if r is not None:
        return r
    if v[0] == 'r' and v[1] in st.heap:
        o = st.heap[v[1]]
        if o.kind == 'inst' and o.cls[0] == 'cls':
            c, e = it.class_lookup(o.cls, '__copy__', st)
            if e is not None and e[0] == 'func':
                return it.inline(st, ('fn', e[1].qual, None), v, (v,), {}, node)
        if o.kind == 'class':
            return [(st, v)]
        return [(st, it.alloc(st, o.copy(attrs=dict(o.attrs), flags=own_flags(o)), node, 'copy'))]
    if v[0] == 's':
        if v[2] in ('str', 'int', 'float', 'bool', 'class', 'name', 'key', 'callable', 'validator') or \
                st.facts.get(('isnone', v)):
            return [(st, v)]
        return [(st, sym(it, node, 'copied', v, tag=v[2]))]
    return [(st, v)]


@model(_copy.deepcopy)
def m_deepcopy(it, st, args, kw, node):
    memo = {}

    def dc(v):
        if v[0] == 'r' and v[1] in st.heap:
            if v in memo:
                return memo[v]
            o = st.heap[v[1]]
            if o.kind == 'class' or it.is_missing(v):
                return v
            ref = it.alloc(st, o.copy(flags=own_flags(o)), node, ('dc', v[1]))
            memo[v] = ref
            if o.kind == 'dict':
                o2 = o.copy(strong=tuple((k, dc(x)) for k, x in o.strong), attrs=dict(o.attrs))
            elif o.kind in ('list', 'set'):
                o2 = o.copy(strong=tuple(dc(x) for x in o.strong), attrs=dict(o.attrs))
            else:
                o2 = o.copy(attrs={a: dc(x) for a, x in o.attrs.items()})
            st.heap[ref[1]] = o2
            return ref
        if v[0] == 't':
            return ('t', tuple(dc(x) for x in v[1]))
        if v[0] == 's' and v[2] == 'any':
            return sym(it, node, 'copied', v)
        return v
    return [(st, dc(args[0]))]


@model(warnings.warn)
def m_warn(it, st, args, kw, node):
    it.warn_sites = getattr(it, 'warn_sites', set()) | {it.nkey(node)}
    st.ev = st.ev + (('warn',),) if not st.ev or st.ev[-1] != ('warn',) else st.ev
    st.note(f'{it.loc(node)}: warning issued')
    return [(st, NONE)]


@model(functools.partial)
def m_partial(it, st, args, kw, node):
    return [(st, ('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]


def _ident(x):
    return x


@model(_ident)
def m_ident(it, st, args, kw, node):
    return [(st, args[0])]


def _memo(x):
    return x


@model(functools.wraps)
def m_wraps(it, st, args, kw, node):
    return [(st, H(_ident))]


@model(functools.lru_cache)
def m_lru_cache(it, st, args, kw, node):
    if args and args[0][0] == 'fn':
        return m_memo(it, st, args, kw, node)
    return [(st, H(_memo))]


@model(_memo, functools.cache)
def m_memo(it, st, args, kw, node):
    if args[0][0] == 'fn':
        it.memo.add(args[0][1])     # called with what equals earlier arguments, it gives the earlier result
    return [(st, args[0])]


@model(typing.final, typing.no_type_check)
def m_cache(it, st, args, kw, node):
    return [(st, args[0])]


@model(typing.cast)
def m_cast(it, st, args, kw, node):
    return [(st, args[1])]


@model(functools.reduce)
def m_reduce(it, st, args, kw, node):
    f, coll = args[0], args[1]
    out = []
    for s, sp in it.iter_space(st, coll, node):
        if isinstance(sp, tuple):
            out.append((s, sp))
            continue
        if not sp.exact:
            out.append((s, it.fresh(node, 'reduced')))
            continue
        items = list(sp.items)
        acc = [(s, args[2])] if len(args) > 2 else [(s, items.pop(0))]
        for x in items:
            nxt = []
            for s2, a in acc:
                nxt.extend([(s2, a)] if is_raise(a) else it.call(s2, f, (a, x), {}, node))
            acc = nxt
        out.extend(acc)
    return out


@model(itertools.chain)
def m_chain(it, st, args, kw, node):
    o = Obj('list')
    for a in args:
        o = it.extend_obj(st, o, a)
    return [(st, it.alloc(st, o, node))]


@model(itertools.chain.from_iterable)
def m_chain_from(it, st, args, kw, node):
    ref = it.alloc(st, Obj('list'), node, 'chain')
    tmp = ('CH', it.nk(node), it.ctxid())
    st.env[tmp] = ref
    res = []
    for s, sp in it.iter_space(st, args[0], node):
        if isinstance(sp, tuple):
            res.append((s, sp))
            continue

        def body(s2, item):
            r = s2.env[tmp]
            s2.heap[r[1]] = it.extend_obj(s2, s2.heap[r[1]], item)
            return [('N', s2, None)]
        exh, broke, outs = it.loop(node, s, sp, body, 'H')
        for a in exh:
            res.append((a, a.env.pop(tmp)))
    return res


@model(contextvars.ContextVar)
def m_contextvar(it, st, args, kw, node):
    attrs = {'name': args[0]}
    if 'default' in kw:
        attrs['default'] = kw['default']
    o = Obj('inst', H(contextvars.ContextVar), attrs)
    return [(st, it.alloc(st, o, node, 'cvar'))]


@model(contextlib.suppress)
def m_suppress(it, st, args, kw, node):
    return [(st, ('suppress', tuple(args)))]


@model(contextlib.nullcontext)
def m_nullcontext(it, st, args, kw, node):
    return [(st, ('nullcm', args[0] if args else NONE))]


@model(contextlib.ExitStack)
def m_exitstack(it, st, args, kw, node):
    return [(st, it.alloc(st, Obj('exitstack'), node))]


@model(re.compile)
def m_recompile(it, st, args, kw, node):
    if all(a[0] == 'c' for a in args) and not kw:
        try:
            return [(st, H(re.compile(*[a[2] for a in args])))]
        except Exception as ex:
            return [it.raise_(st, type(ex), node)]
    return [(st, sym(it, node, 're', *args))]


# ------------------------------------------------------------------- methods
def call_hm(self, st, base, name, args, kwargs, node):
    """Method `name` of a host-like value."""
    it = self
    if name.startswith('super:'):
        return super_host(it, st, base, name[6:], args, kwargs, node)
    t = base[0]
    if t == 'r' and base[1] in st.heap:
        o = st.heap[base[1]]
        if o.kind in ('list', 'set', 'dict'):
            if 'user' in o.flags and name in ('items', 'keys', 'values', 'get', '__getitem__', '__iter__', 'pop', 'copy',
                                              '__contains__', '__len__'):
                out = []
                s2 = st.copy()
                s2.note(f'{it.loc(node)}: the given mapping raises')
                out.extend(it.user_raise(s2, 'Other', node))
                out.extend(coll_method(it, st, base, o, name, args, kwargs, node))
                return out
            return coll_method(it, st, base, o, name, args, kwargs, node)
        if o.kind == 'range':
            if name in ('start', 'stop'):
                return [(st, o.strong[0 if name == 'start' else 1])]
            return [(st, it.fresh(node, 'range'))]
        if o.kind == 'exitstack':
            if name in ('callback',):
                st.heap[base[1]] = o.copy(strong=o.strong + (('cb', args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))),))
                return [(st, args[0])]
            if name == 'enter_context' and args:
                return it.stack_enter(st, base, args[0], node)
            if name == 'push' and args and args[0][0] == 'r' and args[0][1] in st.heap:
                st.heap[base[1]] = o.copy(strong=o.strong + (('exit', args[0]),))
                return [(st, args[0])]
            if name == 'close':
                outs = it.unwind_stack(node, st, base, 'N', None)
                return [(s, ('!', v) if k == 'X' else NONE) for k, s, v in outs]
            if name == 'pop_all':
                st.heap[base[1]] = o.copy(strong=())
                return [(st, it.alloc(st, Obj('exitstack', strong=o.strong), node))]
            it.unknown[('exitstack', name)] += 1
            return [(st, NONE)]
        if o.kind == 'inst' and o.cls == H(contextvars.ContextVar):
            return cvar_method(it, st, base, o, name, args, node)
        if o.kind == 'inst' and name in ('__setattr__', '__delattr__') and args:
            f = object.__setattr__ if name == '__setattr__' else delattr
            return MODELS[f](it, st, (base,) + tuple(args), kwargs, node)
        if o.kind == 'inst' and name in ('__repr__', '__str__', '__format__'):
            return [(st, it.fresh(node, 'repr', 'str'))]
        if o.kind == 'inst' and name == '__eq__' and args:
            return [(s, C(b) if not is_raise_res(b) else b) for s, b in it.is_(st, base, args[0])]
        if o.kind == 'inst' and name in ('with_traceback', 'add_note'):
            return [(st, base if name == 'with_traceback' else NONE)]
        if o.kind == 'inst' and name == '__init_subclass__':
            return [(st, NONE)]
        if o.kind == 'inst' and name == '__init__':
            return [(st, NONE)]
        if name == '__new__':
            return new_inst(it, st, args[0] if args else base, args[1:], node)
    if t == 'cls':
        if name == '__new__':
            return new_inst(it, st, args[0] if args else base, args[1:], node)
        if name == 'mro':
            return [(st, it.alloc(st, Obj('list', strong=tuple(it.mro(base, st))), node))]
        if name in ('__setattr__',) and len(args) == 3:
            return MODELS[object.__setattr__](it, st, tuple(args), kwargs, node)
        if name in ('__init__',):
            return [(st, NONE)]
    if t == 'c':
        return const_method(it, st, base, name, args, kwargs, node)
    if t == 't':
        if name == '__len__':
            return [(st, C(len(base[1])))]
        if name in ('index', 'count'):
            return [(st, it.fresh(node, name, 'int'))]
        if name == '__contains__':
            return [(s, C(b) if not is_raise_res(b) else b) for s, b in it.in_(st, args[0], base)]
        return [(st, it.fresh(node, name))]
    if t == 'view':
        if name in ('isdisjoint',):
            return quant_set(it, st, 'isdisjoint', base, args[0], node)
        if name in ('__iter__',):
            return [(st, base)]
        if name == 'mapping':
            return [(st, base[2])]
        if name in ('__contains__',):
            return [(s, C(b) if not is_raise_res(b) else b) for s, b in it.in_(st, args[0], base)]
        if name in ('intersection', 'union', 'difference'):
            return it.set_op(st, name, base, args[0], node)
    if t in 'so':
        return sym_method(it, st, base, name, args, kwargs, node)
    if t == 'H':
        try:
            m = getattr(base[1].obj, name)
            return it.call_host(st, m, args, kwargs, node)
        except AttributeError:
            return [it.raise_(st, AttributeError, node)]
    it.unknown[('method', t, name)] += 1
    return [(st, old('any'))]


def new_inst(it, st, cls, rest, node):
    """cls.__new__(cls, *rest): exceptions keep the arguments."""
    exc = bool(it.issub(cls, H(BaseException), st))
    return [(st, it.alloc(st, Obj('inst', cls, {'args': ('t', tuple(rest))} if exc else {}), node, ('new', cls)))]


def super_host(it, st, selfv, name, args, kwargs, node):
    if name in ('__setattr__',):
        return MODELS[object.__setattr__](it, st, (selfv,) + tuple(args), kwargs, node)
    if name == '__delattr__':
        return MODELS[delattr](it, st, (selfv,) + tuple(args), kwargs, node)
    if name == '__new__':
        if len(args) >= 4:
            return make_class(it, st, args[0], args[1], args[2], args[3], node, kwargs)
        return new_inst(it, st, args[0] if args else selfv, args[1:], node)
    if name == '__init__':
        if selfv[0] == 'r' and selfv[1] in st.heap:
            o = st.heap[selfv[1]]
            if o.kind == 'inst' and 'args' in o.attrs:
                st.heap[selfv[1]] = o.copy(attrs={**o.attrs, 'args': ('t', tuple(args))})
        return [(st, NONE)]
    if name in ('__repr__', '__str__', '__format__'):
        return [(st, it.fresh(node, 'repr', 'str'))]
    if name == '__getattribute__' and args and args[0][0] == 'c':
        return it.get_attr(st, selfv, args[0][2], node)
    if name == '__eq__':
        return [(s, C(b) if not is_raise_res(b) else b) for s, b in it.is_(st, selfv, args[0])]
    if name == '__hash__':
        return [(st, it.fresh(node, 'hash', 'int'))]
    return [(st, NONE)]


def make_class(it, st, meta, name, bases, attrs, node, kwargs):
    """type.__new__(meta, name, bases, attrs)."""
    d = coll_obj(st, attrs, ('dict',))
    if d is None or bases[0] != 't':
        return [(st, it.fresh(node, 'class', 'class'))]
    at = {}
    for k, v in d.strong:
        at[k[2] if k[0] == 'c' else k] = v
    at['__name__'] = name
    o = Obj('class', meta, at, strong=tuple(bases[1]), others=d.others, flags=d.flags & frozenset({'excl', 'open'}))
    ref = it.alloc(st, o, node, 'newclass')
    f = getattr(it.world, 'class_created', None)
    if f is not None:
        f(it, st, ref)
    c, e = it.class_lookup(ref, '__init_subclass__', st, after=ref)
    if e is not None and e[0] == 'func':
        kw = {k: v for k, v in kwargs.items()}
        out = []
        with held(ref):
            res = it.inline(st, ('fn', e[1].qual, None), ref, (ref,), kw, node)
        for s, v in res:
            out.append((s, v if is_raise(v) else ref))
        return out
    return [(st, ref)]


def cvar_method(it, st, base, o, name, args, node):
    if name == 'get':
        v = st.cv.get(base)
        if v is not None:
            return [(st, v)]
        if args:
            return [(st, args[0])]
        if 'default' in o.attrs:
            return [(st, o.attrs['default'])]
        return [it.raise_(st, LookupError, node)]
    if name == 'set':
        prev = st.cv.get(base)
        tok = Obj('token', attrs={'var': base, 'old_value': prev if prev is not None else ('unset',)})
        ref = it.alloc(st, tok, node, 'tok')
        st.cv[base] = args[0]
        return [(st, ref)]
    if name == 'reset':
        t = args[0]
        to = st.heap.get(t[1]) if t[0] == 'r' else None
        if to is None or to.kind != 'token':
            st.cv[base] = old('any')
            return [(st, NONE)]
        if to.attrs['var'] != base:
            return [it.raise_(st, ValueError, node, 'token of another variable')]
        if 'used' in to.flags:
            return [it.raise_(st, RuntimeError, node, 'token used twice')]
        st.heap[t[1]] = to.copy(flags=to.flags | {'used'})
        if to.attrs['old_value'] == ('unset',):
            st.cv.pop(base, None)
        else:
            st.cv[base] = to.attrs['old_value']
        return [(st, NONE)]
    return [(st, it.fresh(node, name))]


STR_STR = {'join', 'format', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'title', 'capitalize', 'casefold',
           'center', 'ljust', 'rjust', 'zfill', 'format_map', 'removeprefix', 'removesuffix', 'expandtabs', '__str__',
           '__add__', '__mul__', '__format__', 'translate', 'swapcase', '__repr__'}
STR_BOOL = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isidentifier', 'isspace', 'isalnum', 'isupper', 'islower',
            '__contains__', '__eq__', '__ne__', 'isnumeric', 'isdecimal', 'istitle', 'isprintable', 'isascii'}


def const_method(it, st, base, name, args, kwargs, node):
    try:
        hargs = [it.to_host(st, a) for a in args]
        hkw = {k: it.to_host(st, v) for k, v in kwargs.items()}
        m = getattr(base[2], name)
        try:
            return [(st, it.wrap_host(st, m(*hargs, **hkw), node))]
        except Exception as ex:
            return [it.raise_(st, type(ex), node)]
    except Exception:
        pass
    return str_method(it, st, base, name, args, kwargs, node)


def format_parts(it, st, text, args, kwargs):
    """The parts of text.format(...) (None: a form not followed)."""
    import string
    out, n = [], 0
    try:
        for lit, name, spec, conv in string.Formatter().parse(text):
            if lit:
                out.append(C(lit))
            if name is None:
                continue
            if spec:
                return None
            if name == '':
                name, n = str(n), n + 1
            v = args[int(name)] if name.isdigit() and int(name) < len(args) else kwargs.get(name)
            if v is None:
                return None
            out.append(part(it, st, v, {'r': 'repr', 'a': 'repr'}.get(conv, 'str')))
    except ValueError:
        return None
    return tuple(out)


def percent_parts(it, st, text, v):
    """The parts of text % v (None: a form not followed)."""
    import re
    args = list(v[1]) if v[0] == 't' else [v]
    if v[0] == 'r' or v[0] not in 'tcs':
        return None
    out = []
    for lit, c in re.findall(r'([^%]*)(%.|$)', text, re.S):
        if lit:
            out.append(C(lit))
        if c == '%%':
            out.append(C('%'))
        elif c in ('%s', '%r', '%d', '%i') and args:
            out.append(part(it, st, args.pop(0), 'repr' if c == '%r' else 'str'))
        elif c:
            return None
    return None if args else tuple(out)


def part(it, st, v, conv):
    if v[0] == 'c':
        return C((repr if conv == 'repr' else str)(v[2]))
    return it.conv_term(st, conv, v)


def str_method(it, st, base, name, args, kwargs, node):
    parts = []
    for a in tuple(args) + tuple(v for _, v in sorted(kwargs.items())):
        o = coll_obj(st, a)
        if o is not None:
            parts.extend(o.strong if o.kind != 'dict' else [x for kv in o.strong for x in kv])
            parts.extend(sorted(o.weak, key=repr) if o.kind != 'dict' else [])
        else:
            parts.append(a)
    if name in STR_STR:
        if name == 'format' and base[0] == 'c':
            known = format_parts(it, st, base[2], args, kwargs)
            if known is not None:
                return [(st, old('str') if any(has_old(x) for x in known) else ('s', ('fmt', known), 'str'))]
            r = []
            for a in args:
                r.append(it.conv_term(st, 'str', a) if a[0] != 'c' else a)
            return [(st, sym(it, node, 'fmt', (base,) + tuple(r), tag='str') if not any(has_old(x) for x in r)
                     else old('str'))]
        if any(has_old(p) for p in parts) or has_old(base):
            return [(st, old('str'))]
        return [(st, ('s', ('strm', name, base) + tuple(parts), 'str'))]
    if name in STR_BOOL:
        if any(has_old(p) for p in parts) or has_old(base):
            return [(st.copy(), TRUE), (st, FALSE)]
        return [(s, C(b)) for s, b in it.fork(st, ('strm', name, base) + tuple(parts))]
    if name in ('split', 'splitlines', 'rsplit', 'partition'):
        return [(st, sym(it, node, 'strm', name, base))]
    if name in ('count', 'find', 'index', '__len__', '__hash__'):
        return [(st, sym(it, node, 'strm', name, base, tag='int'))]
    return [(st, sym(it, node, 'strm', name, base))]


def sym_method(it, st, base, name, args, kwargs, node):
    f = getattr(it.world, 'sym_method', None)
    if f is not None:
        r = f(it, st, base, name, args, kwargs, node)
        if r is not None:
            return r
    tag = base[-1]
    if tag in ('str', 'name', 'key', 'dkey'):
        return str_method(it, st, base, name, args, kwargs, node)
    if name in ('items', 'keys', 'values'):
        return [(st, ('view', name, base))]
    if name in ('append', 'extend', 'update', 'clear', 'remove', 'insert', 'add', 'discard', 'sort', 'reverse',
                '__setitem__', '__delitem__', 'popitem', 'setdefault', 'pop'):
        it.world.mutate(it, st, base, ('call', name), node)
        if name in ('pop', 'popitem', 'setdefault'):
            return [(st, sym(it, node, 'call', base, name, *args))]
        return [(st, NONE)]
    if name in ('startswith', 'endswith', 'isdigit'):
        if has_old(base):
            return [(st.copy(), TRUE), (st, FALSE)]
        return [(s, C(b)) for s, b in it.fork(st, ('strm', name, base) + tuple(args))]
    if name == '__contains__':
        return [(s, C(b) if not is_raise_res(b) else b) for s, b in it.in_(st, args[0], base)]
    if name == '__getitem__':
        return it.get_item(st, base, args[0], node)
    if name == 'copy' and not args:
        return [(st, sym(it, node, 'copied', base, tag=tag))]
    if name == 'get' and args and tag == 'dict' and not has_old(base) and not has_old(args[0]):
        miss = args[1] if len(args) > 1 else kwargs.get('default', NONE)
        return [(s, b if is_raise_res(b) else sym(it, node, 'item', base, args[0]) if b else miss) for s, b in it.in_(st, args[0], base)]
    if name == 'get' and args:
        r = [(st.copy(), sym(it, node, 'item', base, args[0]))]
        r.append((st, args[1] if len(args) > 1 else NONE))
        return r
    return it.world.opaque_call(it, st, ('hm', base, name), args, kwargs, node)


LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__',
            '__iadd__', 'add', 'update', 'discard', 'difference_update', 'intersection_update',
            'symmetric_difference_update', 'popitem', 'setdefault', '__ior__', 'move_to_end', 'appendleft', 'extendleft',
            'popleft'}


def coll_method(it, st, base, o, name, args, kwargs, node):
    if o.cls is not None and o.cls[0] == 'H' and name in LIST_MUT | {'copy'} and not hasattr(o.cls[1].obj, name) \
            and not any(b is True and k[0] == 'isinst' and k[1] == base and k[2][0] == 'H' and hasattr(k[2][1].obj, name)
                        for k, b in st.facts.items()):
        return [it.raise_(st, AttributeError, node, name)]
    if name in LIST_MUT and name not in ('setdefault', 'pop'):
        it.world.mutate(it, st, base, ('call', name, args), node)
        it.writes.add((it.loc(node), name))
        it.touch(st, base)
    uid = base[1]
    kind = o.kind
    if name == '__contains__':
        return [(s, C(b) if not is_raise_res(b) else b) for s, b in it.in_(st, args[0], base)]
    if name == '__len__':
        return MODELS[len](it, st, (base,), {}, node)
    if name == '__iter__':
        return [(st, base)]
    if name == '__getitem__':
        return it.get_item(st, base, args[0], node)
    if name == '__setitem__':
        return [(s, x if x is not None else NONE) for s, x in it.set_item(st, base, args[0], args[1], node)]
    if name in ('__eq__', '__ne__'):
        return [(s, C(b == (name == '__eq__')) if not is_raise_res(b) else b) for s, b in it.eq(st, base, args[0])]
    if name == 'copy':
        o2 = o.copy(cls=None, flags=own_flags(o), attrs={})
        return [(st, it.alloc(st, o2, node, 'copy'))]
    if name == 'clear':
        st.heap[uid] = Obj(kind, o.cls, o.attrs, flags=o.flags - {'excl'})
        return [(st, NONE)]
    if kind == 'dict':
        return dict_method(it, st, base, o, name, args, kwargs, node)
    # lists and sets
    if name == 'add' and args[0][0] in 'Hs':
        out = []
        for s, b in it.hashing(st, args[0]):
            if b is True:
                it.coll_add(s, base, args[0])
            out.append((s, NONE if b is True else b))
        return out
    if name in ('append', 'add', 'appendleft'):
        it.coll_add(st, base, args[0])
        return [(st, NONE)]
    if name == 'insert':
        if o.exact() and args[0][0] == 'c' and not has_old(args[1]) and o.ne is not True:
            x = list(o.strong)
            x.insert(args[0][2], args[1])
            st.heap[uid] = o.copy(strong=tuple(x))
        else:
            it.coll_add(st, base, args[1])
        return [(st, NONE)]
    if name in ('extend', 'update', '__iadd__', '__ior__', 'extendleft'):
        out = [(st, NONE)]
        res = []
        for a in args:
            nxt = []
            for s, _ in out:
                for s2, sp in it.iter_space(s, a, node):
                    if isinstance(sp, tuple):
                        res.append((s2, sp))
                        continue
                    if sp.may_raise:
                        res.extend(it.user_raise(s2.copy(), 'Other', node))
                    oo = it.extend_obj(s2, s2.heap[uid], a)
                    if kind == 'set':
                        seen = []
                        for x in oo.strong:
                            if x not in seen:
                                seen.append(x)
                        oo = oo.copy(strong=tuple(seen))
                    s2.heap[uid] = oo.copy(removed=oo.removed - frozenset(oo.strong))
                    nxt.append((s2, base if name.startswith('__') else NONE))
            out = nxt
        return res + out
    if name in ('remove', 'discard'):
        out = []
        for s, b in it.in_(st, args[0], base):
            if is_raise_res(b):
                out.append((s, b))
            elif b:
                oo = s.heap[uid]
                x = list(oo.strong)
                if args[0] in x:
                    x.remove(args[0])
                elif len(x) == 1 and oo.exact():
                    x = []
                rem = oo.removed
                if oo.kind == 'set' and not has_old(args[0]):
                    rem = rem | {args[0]} if oo.others else rem
                s.heap[uid] = oo.copy(strong=tuple(x), ne=None, removed=rem)
                out.append((s, NONE))
            elif name == 'remove':
                out.append(it.raise_(s, ValueError if kind == 'list' else KeyError, node))
            else:
                out.append((s, NONE))
        return out
    if name in ('pop', 'popleft'):
        it.world.mutate(it, st, base, ('call', name, args), node)
        if o.exact() and o.ne is not True:
            if not o.strong:
                return [it.raise_(st, IndexError if kind == 'list' else KeyError, node)]
            i = args[0][2] if args and args[0][0] == 'c' else -1
            if name == 'popleft':
                i = 0
            if not args or args[0][0] == 'c':
                x = list(o.strong)
                if -len(x) <= i < len(x):
                    v = x.pop(i)
                    st.heap[uid] = o.copy(strong=tuple(x))
                    return [(st, v)]
                return [it.raise_(st, IndexError, node)]
        out = []
        for i, x in enumerate(o.strong):
            s = st.copy()
            s.heap[uid] = o.copy(strong=o.strong[:i] + o.strong[i + 1:], ne=None)
            out.append((s, x))
        for x in sorted(o.weak, key=repr):
            s = st.copy()
            s.heap[uid] = o.copy(ne=None)
            out.append((s, x))
        if o.others:
            s = st.copy()
            s.heap[uid] = o.copy(ne=None)
            out.append((s, old(o.others[1])))
        if o.ne is not True and not o.strong:
            out.append(it.raise_(st.copy(), IndexError if kind == 'list' else KeyError, node))
        return out
    if name in ('sort', 'reverse'):
        if name == 'reverse':
            st.heap[uid] = o.copy(strong=tuple(reversed(o.strong)))
        return [(st, NONE)]
    if name in ('index', 'count'):
        return [(st, it.fresh(node, name, 'int'))]
    if name in ('intersection', 'union', 'difference', 'symmetric_difference', '__and__', '__or__', '__sub__'):
        nm = {'__and__': 'intersection', '__or__': 'union', '__sub__': 'difference'}.get(name, name)
        cur = [(st, base)]
        if not args:
            return [(st, it.alloc(st, o.copy(flags=own_flags(o)), node))]
        for i, a in enumerate(args):
            nxt = []
            for s, v in cur:
                nxt.extend(it.set_op(s, nm, v, a, node, i))
            cur = nxt
        return cur
    if name in ('difference_update', 'intersection_update', 'symmetric_difference_update'):
        out = []
        for s, v in it.set_op(st, name[:-7], base, args[0], node):
            if is_raise(v):
                out.append((s, v))
            else:
                s.heap[uid] = s.heap[v[1]]
                out.append((s, NONE))
        return out
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        return quant_set(it, st, name, base, args[0], node)
    if name == '__delitem__':
        st.heap[uid] = o.copy(strong=(), weak=o.weak | frozenset(o.strong), ne=None)
        return [(st, NONE)]
    it.unknown[('method', kind, name)] += 1
    return [(st, it.fresh(node, name))]


def quant_set(it, st, name, a, b, node):
    if name == 'issuperset':
        a, b = b, a
    r = it.set_order(st, '<=', a, b) if name != 'isdisjoint' else None
    if r is not None:
        return [(s, C(x) if not is_raise_res(x) else x) for s, x in r]
    if name == 'isdisjoint':
        res = []
        for s, v in it.set_op(st, 'intersection', a, b, node):
            res.extend((s2, C(not t)) for s2, t in it.truth(s, v))
        return res
    return [(s, C(x)) for s, x in it.fork(st, (name, a, b))]


def dict_method(it, st, base, o, name, args, kwargs, node):
    uid = base[1]
    if name in ('items', 'keys', 'values'):
        return [(st, ('view', name, base))]
    if name == 'get':
        out = []
        for s, r in it.dict_get(st, base, args[0]):
            if r[0] == 'hit':
                out.append((s, r[1]))
            elif r[0] == 'miss':
                out.append((s, args[1] if len(args) > 1 else kwargs.get('default', NONE)))
            else:
                out.append((s, r))
        return out
    if name == 'pop':
        out = []
        for s, r in it.dict_get(st, base, args[0]):
            if r[0] == 'hit':
                it.world.mutate(it, s, base, ('call', 'pop', args), node)
                it.dict_del(s, base, args[0])
                out.append((s, r[1]))
            elif r[0] == 'miss':
                if len(args) > 1:
                    out.append((s, args[1]))
                else:
                    out.append(it.raise_(s, KeyError, node, 'key'))
            else:
                out.append((s, r))
        return out
    if name == '__delitem__':
        out = []
        for s, r in it.dict_get(st, base, args[0]):
            if r[0] == 'hit':
                it.dict_del(s, base, args[0])
                out.append((s, NONE))
            elif r[0] == 'miss':
                out.append(it.raise_(s, KeyError, node, 'key'))
            else:
                out.append((s, r))
        return out
    if name == 'setdefault':
        out = []
        for s, r in it.dict_get(st, base, args[0]):
            if r[0] == 'hit':
                out.append((s, r[1]))
            elif r[0] == 'miss':
                d = args[1] if len(args) > 1 else NONE
                it.world.mutate(it, s, base, ('item', args[0], d), node)
                it.dict_set(s, base, args[0], d)
                out.append((s, d))
            else:
                out.append((s, r))
        return out
    if name in ('update', '__ior__'):
        out = [(st, NONE)]
        if args:
            out = []
            for s, sp in it.iter_space(st, args[0], node):
                if isinstance(sp, tuple):
                    out.append((s, sp))
                    continue
                if sp.may_raise:
                    out.extend(it.user_raise(s.copy(), 'Other', node))
                s.heap[uid] = it.merge_dict(s, s.heap[uid], args[0])
                out.append((s, NONE))
        for s, v in out:
            if not is_raise(v):
                for k, x in kwargs.items():
                    it.dict_set(s, base, C(k), x)
        return out
    if name == 'popitem':
        out = []
        for i, (k, v) in enumerate(o.strong):
            s = st.copy()
            s.heap[uid] = o.copy(strong=o.strong[:i] + o.strong[i + 1:], ne=None)
            out.append((s, ('t', (k, v))))
        for k, v in o.weak:
            out.append((st.copy(), ('t', (k, v))))
        if o.others:
            out.append((st.copy(), ('t', (old(o.others[1]), old('any')))))
        if not o.strong:
            out.append(it.raise_(st, KeyError, node))
        return out
    if name == 'move_to_end':
        return [(st, NONE)]
    if name == 'fromkeys':
        return [(st, it.alloc(st, Obj('dict'), node))]
    it.unknown[('method', 'dict', name)] += 1
    return [(st, it.fresh(node, name))]


def members(it, st, v):
    """Space of the elements of v for set operations."""
    for s, sp in it.iter_space(st, v, ast.Pass()):
        if not isinstance(sp, tuple):
            return sp
    return Space()


def set_op(self, st, name, a, b, node, k=0):
    it = self
    if name == 'symmetric_difference':
        out = []
        for s, x in it.set_op(st, 'difference', a, b, node, 'sd1'):
            for s2, y in it.set_op(s, 'difference', b, a, node, 'sd2'):
                out.extend(it.set_op(s2, 'union', x, y, node, 'sd3'))
        return out
    if name == 'union':
        o = it.extend_obj(st, Obj('set'), a)
        o = it.extend_obj(st, o, b)
        seen = []
        for x in o.strong:
            if x not in seen:
                seen.append(x)
        return [(st, it.alloc(st, o.copy(strong=tuple(seen), removed=frozenset()), node, ('union', k)))]
    sa = members(it, st, a)
    want_in_b = name == 'intersection'
    sts = [(st, ())]
    cands = list(sa.items)
    sides = [(x, b) for x in cands]
    weak = set(sa.weak)
    others = None
    oa = coll_obj(st, a[2] if a[0] == 'view' else a)
    if sa.gen is not None:
        src = it.source_others(st, a)
        sb_ = members(it, st, b)
        osrc = it.source_others(st, b) if sb_.gen is not None else (None, 'any')
        tag = src[1] if len(src) > 1 else 'any'
        others = ((name, src[0], osrc[0]), osrc[1] if tag == 'any' and want_in_b else tag)
    if want_in_b:
        sb = members(it, st, b)
        if sa.gen is not None or sa.weak:
            sides += [(x, a) for x in sb.items if x not in cands]
        if not sa.gen and not sa.weak:
            weak = set()
        if not sb.gen and not sb.weak:
            weak = set()
            others = None
    for x, other in sides:
        nxt = []
        for s, acc in sts:
            for s2, r in it.in_(s, x, other):
                if is_raise_res(r):
                    nxt.append((s2, acc))
                else:
                    nxt.append((s2, acc + (x,) if r == want_in_b else acc))
        sts = nxt
    out = []
    for s, acc in sts:
        o = Obj('set', strong=acc, weak=frozenset(weak), others=others,
                flags=it.source_flags(s, a))
        out.append((s, it.alloc(s, o, node, (name, k))))
    return out


def is_none_fact(self, st, v):
    return st.facts.get(('isnone', v)) is True
