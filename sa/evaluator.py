"""Transfer functions for Python expressions and statements."""
import ast
import builtins
import types

from .repo import AnalysisBroken, host_import


_E = None


def _lazy():
    global _E
    if _E is None:
        from . import engine
        _E = engine
    return _E


class Evaluator:
    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.tick()
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            self.unknown[('expr', type(e).__name__)] += 1
            return [(st, _lazy().S(('unknown-expr', self.nkey(e))))]
        return m(e, st)

    def ev_held(self, node, st, *temps):
        with _lazy().held(*temps):
            return self.ev(node, st)

    def ev_list(self, nodes, st):
        """Evaluate in order -> list of (st, tuple of values) or (st, raise)."""
        acc = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vs in acc:
                if vs and vs[0] == '!':
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev_held(n, s, vs):
                    nxt.append((s2, v if v[0] == '!' else vs + (v,)))
            acc = nxt
        return acc

    def ev_Constant(self, e, st):
        return [(st, _lazy().C(e.value))]

    def ev_Name(self, e, st):
        return self.lookup(st, e.id, e)

    def ev_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if v[0] != '!':
                r = self.assign(e.target, v, s)
                out.extend((s2, v if x is None else x) for s2, x in r)
            else:
                out.append((s, v))
        return out

    def ev_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if v[0] == '!':
                out.append((s, v))
            else:
                out.extend(self.get_attr(s, v, e.attr, e))
        return out

    def ev_Tuple(self, e, st):
        return self._seq(e, st, 'tuple')

    def ev_List(self, e, st):
        return self._seq(e, st, 'list')

    def ev_Set(self, e, st):
        return self._seq(e, st, 'set')

    def _seq(self, e, st, kind):
        E = _lazy()
        out = []
        if not any(isinstance(x, ast.Starred) for x in e.elts):
            for s, vs in self.ev_list(e.elts, st):
                if vs and vs[0] == '!':
                    out.append((s, vs))
                elif kind == 'tuple':
                    out.append((s, ('t', vs)))
                else:
                    out.append((s, self.alloc(s, E.Obj(kind, strong=dedupe(vs) if kind == 'set' else vs), e)))
            return out
        acc = [(st, E.Obj('list'))]
        for x in e.elts:
            nxt = []
            for s, o in acc:
                if isinstance(o, tuple):
                    nxt.append((s, o))
                    continue
                for s2, v in self.ev_held(x.value if isinstance(x, ast.Starred) else x, s, o):
                    if v[0] == '!':
                        nxt.append((s2, v))
                    elif isinstance(x, ast.Starred):
                        nxt.append((s2, self.extend_obj(s2, o, v)))
                    else:
                        nxt.append((s2, o.copy(strong=o.strong + (v,))))
            acc = nxt
        for s, o in acc:
            if isinstance(o, tuple):
                out.append((s, o))
            elif kind == 'tuple' and o.exact():
                out.append((s, ('t', o.strong)))
            else:
                o = o.copy(kind='set' if kind == 'set' else 'list')
                out.append((s, self.alloc(s, o, e)))
        return out

    def extend_obj(self, st, o, v):
        """Collection object o extended by everything iterating over v gives."""
        for s, sp in self.iter_space(st, v, ast.Pass()):
            if not isinstance(sp, tuple):
                others = o.others
                weak = o.weak | frozenset(sp.weak)
                ne = o.ne
                if sp.ne is True:
                    ne = True
                if sp.gen:
                    src = self.source_others(st, v)
                    if others is None:
                        others = src
                    elif others != src:
                        weak = weak | {_lazy().old(src[1])}
                return o.copy(strong=o.strong + tuple(sp.items), weak=weak, others=others, ne=ne,
                              flags=(o.flags | self.source_flags(st, v)) - {'user'})
        return o

    def source_others(self, st, v):
        if v[0] == 'r' and v[1] in st.heap:
            o = st.heap[v[1]]
            if o.others:
                return o.others
        if v[0] == 'view' and v[2][0] == 'r' and v[2][1] in st.heap:
            o = st.heap[v[2][1]]
            if o.others:
                if v[1] == 'keys':
                    return (o.others[0], o.others[1])
                if v[1] == 'values':
                    return (('vals', o.others[0]), o.others[2] if len(o.others) > 2 else 'any')
                return (('items', o.others[0]), 'any')
        return (self.coll_base(v), 'any')

    def source_flags(self, st, v):
        if v[0] == 'view':
            v = v[2]
        if v[0] == 'r' and v[1] in st.heap:
            return st.heap[v[1]].flags & frozenset({'excl'})
        return frozenset()

    def ev_Dict(self, e, st):
        E = _lazy()
        acc = [(st, E.Obj('dict'))]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, o in acc:
                if isinstance(o, tuple):
                    nxt.append((s, o))
                    continue
                if k is None:
                    for s2, m in self.ev_held(v, s, o):
                        if m[0] == '!':
                            nxt.append((s2, m))
                        else:
                            nxt.append((s2, self.merge_dict(s2, o, m)))
                    continue
                with E.held(o):
                    pair = self.ev_list([k, v], s)
                for s2, kv in pair:
                    if kv and kv[0] == '!':
                        nxt.append((s2, kv))
                    else:
                        nxt.append((s2, put(o, kv[0], kv[1])))
            acc = nxt
        return [(s, o if isinstance(o, tuple) else self.alloc(s, o, e)) for s, o in acc]

    def merge_dict(self, st, o, m):
        if m[0] == 'r' and m[1] in st.heap and st.heap[m[1]].kind == 'dict':
            d = st.heap[m[1]]
            for k, v in d.strong:
                o = put(o, k, v)
            others = o.others
            weak = o.weak | d.weak
            opt = o.opt + tuple(x for x in d.opt if x not in o.opt)
            flags = (o.flags | frozenset(f for f in d.flags if not isinstance(f, tuple))) - {'user'}
            removed = o.removed
            if d.others:
                if others is None:
                    others = d.others
                    removed = removed | d.removed
                elif others != d.others:
                    weak = weak | {(_lazy().old(d.others[1]), _lazy().old(d.others[2] if len(d.others) > 2 else 'any'))}
            return o.copy(weak=weak, others=others, opt=opt, flags=flags, removed=removed)
        if m[0] == 'view':
            return self.merge_dict(st, o, m[2])
        if m[0] == 't' or m[0] == 'r':
            for s, sp in self.iter_space(st, m, ast.Pass()):
                if isinstance(sp, tuple):
                    break
                for x in sp.items:
                    if x[0] == 't' and len(x[1]) == 2:
                        o = put(o, x[1][0], x[1][1])
                for x in sp.weak:
                    if x[0] == 't' and len(x[1]) == 2:
                        o = o.copy(weak=o.weak | {x[1]}, ne=True)
                return o
        E = _lazy()
        if o.others is None:
            return o.copy(others=(self.coll_base(m), 'any', 'any'))
        return o.copy(weak=o.weak | {(E.old('any'), E.old('any'))})

    def ev_JoinedStr(self, e, st):
        E = _lazy()
        acc = [(st, ())]
        for x in e.values:
            nxt = []
            for s, parts in acc:
                if parts and parts[0] == '!':
                    nxt.append((s, parts))
                elif isinstance(x, ast.Constant):
                    nxt.append((s, parts + (E.C(x.value),)))
                else:
                    for s2, v in self.ev_held(x.value, s, parts):
                        if v[0] == '!':
                            nxt.append((s2, v))
                        elif v[0] == 'c' and x.conversion == -1 and x.format_spec is None:
                            nxt.append((s2, parts + (E.C(str(v[2])),)))
                        else:
                            conv = {114: 'repr', 115: 'str', 97: 'repr', -1: 'str'}[x.conversion]
                            r = self.world.conv_raises(self, s2, 'f' + conv, v)
                            if r:
                                s3 = s2.copy()
                                nxt.extend(self.user_raise(s3, 'Other', e))
                            nxt.append((s2, parts + (self.conv_term(s2, conv, v),)))
            acc = nxt
        out = []
        for s, parts in acc:
            if parts and parts[0] == '!':
                out.append((s, parts))
            elif all(p[0] == 'c' for p in parts):
                out.append((s, E.C(''.join(p[2] for p in parts))))
            elif len(parts) == 1:
                out.append((s, parts[0]))
            elif any(E.has_old(p) for p in parts) and not any(p[0] == 'c' and p[2] for p in parts):
                out.append((s, E.old('str')))
            else:
                out.append((s, ('s', ('fmt', parts), 'str')))
        return out

    def conv_term(self, st, conv, v):
        """str(v) or repr(v) as a value."""
        E = _lazy()
        if E.has_old(v):
            return E.old('str')
        if conv == 'str':
            if v[0] == 'c':
                return E.C(str(v[2]))
            if self.vtag(st, v) in ('str', 'name', 'key', 'dkey'):
                return v
            o = st.heap.get(v[1]) if v[0] == 'r' else None
            if o is not None and o.kind == 'inst' and o.cls[0] in ('H', 'cls', 'r') and \
                    self.issub(o.cls, E.H(BaseException), st):
                c, e = self.class_lookup(o.cls, '__str__', st)
                a = o.attrs.get('args')
                if (e is None or e[0] == 'host') and a is not None and a[0] == 't':
                    if not a[1]:
                        return E.C('')
                    if len(a[1]) == 1:
                        return self.conv_term(st, 'repr' if self.issub(o.cls, E.H(KeyError), st) else 'str', a[1][0])
        return ('s', (conv, v), 'str')

    def ev_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def ev_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        done = []
        cur = [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s):
                    if v[0] == '!' or last:
                        done.append((s2, v))
                        continue
                    for s3, t in self.truth(s2, v):
                        if isinstance(t, tuple):
                            done.append((s3, t))
                        elif t is is_and:
                            nxt.append(s3)
                        else:
                            done.append((s3, v if not (v[0] in 'so' and v[-1] == 'bool') else _lazy().C(t)))
            cur = nxt
        return done

    def ev_UnaryOp(self, e, st):
        E = _lazy()
        out = []
        for s, v in self.ev(e.operand, st):
            if v[0] == '!':
                out.append((s, v))
            elif isinstance(e.op, ast.Not):
                for s2, t in self.truth(s, v):
                    out.append((s2, t if isinstance(t, tuple) else E.C(not t)))
            elif isinstance(e.op, ast.USub) and v[0] == 'c':
                out.append((s, E.C(-v[2])))
            else:
                out.append((s, ('s', ('unary', type(e.op).__name__, v), 'int') if not E.has_old(v) else E.old('int')))
        return out

    def ev_Compare(self, e, st):
        E = _lazy()
        acc = [(s, v, True) for s, v in self.ev(e.left, st)]
        done = []
        cur = []
        for s, v, _ in acc:
            (done if v[0] == '!' else cur).append((s, v))
        for op, rhs in zip(e.ops, e.comparators):
            nxt = []
            for s, left in cur:
                for s2, right in self.ev_held(rhs, s, left):
                    if right[0] == '!':
                        done.append((s2, right))
                        continue
                    for s3, r in self.compare(s2, op, left, right):
                        if isinstance(r, tuple):
                            done.append((s3, r))
                        elif r:
                            nxt.append((s3, right))
                        else:
                            done.append((s3, E.FALSE))
            cur = nxt
        return done + [(s, E.TRUE) for s, _ in cur]

    def compare(self, st, op, a, b):
        neg = lambda rs: [(s, r if isinstance(r, tuple) else not r) for s, r in rs]
        if isinstance(op, ast.Is):
            return self.is_(st, a, b)
        if isinstance(op, ast.IsNot):
            return neg(self.is_(st, a, b))
        if isinstance(op, ast.In):
            return self.in_(st, a, b)
        if isinstance(op, ast.NotIn):
            return neg(self.in_(st, a, b))
        if isinstance(op, ast.Eq):
            return self.op_eq(st, a, b)
        if isinstance(op, ast.NotEq):
            return neg(self.op_eq(st, a, b))
        s = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
        r = self.set_order(st, s, a, b)
        if r is not None:
            return r
        return self.order(st, s, a, b)

    def op_eq(self, st, a, b):
        if a[0] == 'r' and a[1] in st.heap and st.heap[a[1]].kind == 'inst':
            o = st.heap[a[1]]
            if o.cls[0] in ('cls',):
                c, e = self.class_lookup(o.cls, '__eq__', st)
                if e is not None and e[0] == 'func':
                    out = []
                    for s, r in self.call(st, ('bm', ('fn', e[1].qual, None), a), (b,), {}, e[1].node):
                        out.extend([(s, r)] if r[0] == '!' else self.truth(s, r))
                    return out
        return self.eq(st, a, b)

    def set_order(self, st, op, a, b):
        """Subset tests between known collections."""
        def coll(v):
            if v[0] == 'view':
                v = v[2]
            if v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind in ('set', 'dict'):
                return v
            return None
        ca, cb = coll(a), coll(b)
        if ca is None or cb is None:
            return None
        if op in ('>=', '>'):
            ca, cb = cb, ca
        oa = st.heap[ca[1]]
        if not oa.exact():
            return self.fork(st, ('subset', ca, cb))
        items = [k for k, _ in oa.strong] if oa.kind == 'dict' else list(oa.strong)
        sts = [(st, True)]
        for k in items:
            nxt = []
            for s, r in sts:
                nxt.extend(self.in_(s, k, cb) if r is True else [(s, r)])
            sts = nxt
        return sts

    def ev_IfExp(self, e, st):
        out = []
        for s, v in self.ev(e.test, st):
            if v[0] == '!':
                out.append((s, v))
                continue
            for s2, t in self.truth(s, v):
                if isinstance(t, tuple):
                    out.append((s2, t))
                else:
                    out.extend(self.ev(e.body if t else e.orelse, s2))
        return out

    def ev_BinOp(self, e, st):
        out = []
        for s, vs in self.ev_list([e.left, e.right], st):
            if vs and vs[0] == '!':
                out.append((s, vs))
            else:
                out.extend(self.binop(s, e.op, vs[0], vs[1], e))
        return out

    def binop(self, st, op, a, b, node):
        E = _lazy()
        if a[0] == 'c' and b[0] == 'c':
            try:
                fn = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                      ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y, ast.BitOr: lambda x, y: x | y,
                      ast.BitAnd: lambda x, y: x & y}[type(op)]
                return [(st, E.C(fn(a[2], b[2])))]
            except KeyError:
                pass
            except Exception:
                return [self.raise_(st, TypeError, node)]
        if isinstance(op, ast.Add) and a[0] == 't' and b[0] == 't':
            return [(st, ('t', a[1] + b[1]))]
        if isinstance(op, (ast.Add, ast.Sub)) and self.is_int(a) and self.is_int(b) and a[0] != 'len' and b[0] != 'len':
            if E.has_old(a) or E.has_old(b):
                return [(st, E.old('int'))]
            (x, cx), (y, cy) = self.lin(a), self.lin(b)
            if y is None:
                return [(st, self.mklin(x, cx + cy if isinstance(op, ast.Add) else cx - cy))]
            if x is None and isinstance(op, ast.Add):
                return [(st, self.mklin(y, cx + cy))]
            return [(st, ('s', ('binop', type(op).__name__, a, b), 'int'))]

        def coll(v, kinds=('list',)):
            return v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind in kinds
        if isinstance(op, ast.Add) and (coll(a) or coll(b)):
            o = E.Obj('list')
            o = self.extend_obj(st, o, a)
            o = self.extend_obj(st, o, b)
            return [(st, self.alloc(st, o, node, '+'))]
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if y[0] == 'c' and isinstance(y[2], int) and 0 <= y[2] <= 16:
                    if x[0] == 't':
                        return [(st, ('t', x[1] * y[2]))]
                    if coll(x) and st.heap[x[1]].exact() and st.heap[x[1]].ne is not True:
                        return [(st, self.alloc(st, E.Obj('list', strong=st.heap[x[1]].strong * y[2]), node, '*'))]
                if coll(x):
                    o = st.heap[x[1]]
                    return [(st, self.alloc(st, E.Obj('list', weak=o.weak | set(o.strong), others=o.others), node, '*'))]
        aset = coll(a, ('set', 'dict')) or a[0] == 'view'
        if aset and isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub)):
            if isinstance(op, ast.BitOr) and coll(a, ('dict',)):
                o = self.merge_dict(st, E.Obj('dict'), a)
                o = self.merge_dict(st, o, b)
                return [(st, self.alloc(st, o, node, '|'))]
            name = {ast.BitAnd: 'intersection', ast.BitOr: 'union', ast.Sub: 'difference'}[type(op)]
            return self.set_op(st, name, a, b, node)
        if isinstance(op, ast.Mod) and a[0] == 'c' and isinstance(a[2], str):
            from .models import percent_parts
            known = percent_parts(self, st, a[2], b)
            if known is not None and not any(E.has_old(x) for x in known):
                return [(st, ('s', ('fmt', known), 'str'))]
            return [(st, ('s', ('fmt', (a, b)), 'str') if not E.has_old(b) else E.old('str'))]
        if isinstance(op, ast.Add) and (self.vtag(st, a) == 'str' or self.vtag(st, b) == 'str'):
            if E.has_old(a) or E.has_old(b):
                return [(st, E.old('str'))]
            return [(st, ('s', ('fmt', (a, b)), 'str'))]
        if isinstance(op, ast.Mult) and ((a[0] == 'c' and isinstance(a[2], str)) or (b[0] == 'c' and isinstance(b[2], str))):
            return [(st, ('s', ('binop', 'Mult', a, b), 'str') if not (E.has_old(a) or E.has_old(b)) else E.old('str'))]
        if E.has_old(a) or E.has_old(b):
            return [(st, E.old('any'))]
        tag = 'int' if self.is_int(a) and self.is_int(b) else 'any'
        return [(st, ('s', ('binop', type(op).__name__, a, b), tag))]

    def ev_Subscript(self, e, st):
        out = []
        if isinstance(e.slice, ast.Slice):
            for s, v in self.ev(e.value, st):
                if v[0] == '!':
                    out.append((s, v))
                    continue
                parts = [p for p in (e.slice.lower, e.slice.upper, e.slice.step)]
                exprs = [p if p is not None else ast.Constant(value=None, lineno=e.lineno, col_offset=e.col_offset) for p in parts]
                for s2, vs in self.ev_list(exprs, s):
                    if vs and vs[0] == '!':
                        out.append((s2, vs))
                    else:
                        out.extend(self.get_slice(s2, v, vs, e))
            return out
        for s, vs in self.ev_list([e.value, e.slice], st):
            if vs and vs[0] == '!':
                out.append((s, vs))
            else:
                out.extend(self.get_item(s, vs[0], vs[1], e))
        return out

    def get_slice(self, st, v, bounds, node):
        E = _lazy()
        if all(b[0] == 'c' for b in bounds):
            sl = slice(*[b[2] for b in bounds])
            if v[0] == 't':
                return [(st, ('t', v[1][sl]))]
            if v[0] == 'c':
                return [(st, E.C(v[2][sl]))]
            if v[0] == 'r' and v[1] in st.heap:
                o = st.heap[v[1]]
                if o.kind == 'list':
                    if o.exact():
                        return [(st, self.alloc(st, E.Obj('list', strong=o.strong[sl]), node))]
                    if (sl.start in (None, 0)) and sl.stop is None and sl.step in (None, -1, 1):
                        return [(st, self.alloc(st, o.copy(flags=frozenset(f for f in o.flags if f != 'user' and not isinstance(f, tuple))), node))]
                    # a proper slice of an unordered abstraction may miss the focus element
                    weak = o.weak | frozenset(o.strong)
                    return [(st, self.alloc(st, E.Obj('list', weak=weak, others=o.others), node))]
            if v[0] == 's' and sl.start in (None, 0) and sl.stop is None:
                return [(st, v)]
        if v[0] == 'o' or E.has_old(v):
            return [(st, E.old('any'))]
        return [(st, ('s', ('slice', v, bounds), 'any'))]

    def get_item(self, st, v, k, node):
        E = _lazy()
        t = v[0]
        if k[0] == 's' and k[1][0] == 'idx':
            base, item = k[1][1], k[1][2]
            if v == base or self.same_coll(st, v, base):
                return [(st, item)]
            if not E.has_old(k):
                return [(st, ('s', ('beside', v, item), 'any'))]
        if t == 't':
            if k[0] == 'c' and isinstance(k[2], int):
                if -len(v[1]) <= k[2] < len(v[1]):
                    return [(st, v[1][k[2]])]
                return [self.raise_(st, IndexError, node, 'index')]
            if len(v[1]) == 1:
                return [(st, v[1][0])]
            return [(s, x) for s, x in ((st.copy(), x) for x in v[1])] + [self.raise_(st, IndexError, node)]
        if t == 'c':
            if k[0] == 'c':
                try:
                    return [(st, E.C(v[2][k[2]]))]
                except Exception as ex:
                    return [self.raise_(st, type(ex), node)]
            return [(st, E.old('any'))]
        if t == 'r' and v[1] in st.heap:
            o = st.heap[v[1]]
            if o.kind == 'dict':
                out = []
                for s, r in self.dict_get(st, v, k):
                    if r[0] == 'hit':
                        out.append((s, r[1]))
                    elif r[0] == 'miss':
                        out.append(self.raise_(s, KeyError, node, 'key'))
                    else:
                        out.append((s, r))
                if 'user' in o.flags:
                    s = out[0][0].copy() if out else st.copy()
                    s.note(f'{self.loc(node)}: the given mapping raises')
                    out.extend(self.user_raise(s, 'Other', node))
                return out
            if o.kind == 'list':
                if o.exact() and k[0] == 'c' and o.ne is not True:
                    if -len(o.strong) <= k[2] < len(o.strong):
                        return [(st, o.strong[k[2]])]
                    return [self.raise_(st, IndexError, node)]
                if k[0] == 'o' or not o.exact() or True:
                    out = []
                    for x in list(o.strong) + sorted(o.weak, key=repr):
                        out.append((st.copy(), x))
                    if o.others:
                        out.append((st.copy(), E.old(o.others[1])))
                    if not (k in (E.C(0), E.C(-1)) and o.ne is True and out):
                        out.append(self.raise_(st.copy(), IndexError, node))
                    return out
            if o.kind == 'inst':
                c, e = self.class_lookup(o.cls, '__getitem__', st)
                if e is not None and e[0] == 'func':
                    return self.call(st, ('bm', ('fn', e[1].qual, None), v), (k,), {}, node)
                if o.flags and 'ntuple' in o.flags and k[0] == 'c':
                    vals = [x for a, x in o.attrs.items()]
                    if -len(vals) <= k[2] < len(vals):
                        return [(st, vals[k[2]])]
        if t == 'H':
            try:
                hk = self.to_host(st, k)
                return [(st, self.wrap_host(st, v[1].obj[hk], node))]
            except NotHost:
                return [(st, ('s', ('generic', v, k), 'any') if not E.has_old(k) else E.old('any'))]
            except Exception as ex:
                return [self.raise_(st, type(ex), node)]
        if t == 'cls':
            c, e = self.class_lookup(v, '__class_getitem__', st)
            return [(st, v)]
        if t == 's':
            f = getattr(self.world, 'sym_item', None)
            if f is not None:
                r = f(self, st, v, k, node)
                if r is not None:
                    return r
        if E.has_old(v) or E.has_old(k):
            return [(st, E.old('any'))]
        if t == 's' and v[2] == 'dict':
            return [(s, b) if isinstance(b, tuple) else (s, ('s', ('item', v, k), 'any')) if b else self.raise_(s, KeyError, node, 'key')
                    for s, b in self.in_(st, k, v)]
        return [(st, ('s', ('item', v, k), 'any'))]

    def same_coll(self, st, a, b):
        if a == b:
            return True
        if a[0] == b[0] == 'r' and a[1] in st.heap and b[1] in st.heap:
            return st.heap[a[1]].content() == st.heap[b[1]].content()
        return False

    def to_host(self, st, v):
        if v[0] == 'c':
            return v[2]
        if v[0] == 'H':
            return v[1].obj
        if v[0] == 't':
            return tuple(self.to_host(st, x) for x in v[1])
        if v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind == 'list' and st.heap[v[1]].exact():
            return [self.to_host(st, x) for x in st.heap[v[1]].strong]
        raise NotHost()

    def ev_Lambda(self, e, st):
        fi = self.repo.inner_func(e, self.stack[-1])
        return [(st, ('fn', fi.qual, self.fids[-1]))]

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    # comprehensions ---------------------------------------------------------
    def ev_ListComp(self, e, st):
        return self._comp(e, st, 'list')

    def ev_SetComp(self, e, st):
        return self._comp(e, st, 'set')

    def ev_GeneratorExp(self, e, st):
        return self._comp(e, st, 'list')

    def ev_DictComp(self, e, st):
        return self._comp(e, st, 'dict')

    def _selection(self, e, st, kind):
        """{x for x in A if x in B ...} over a symbolic collection: as an intersection or difference; None if it is not one."""
        E = _lazy()
        g = e.generators[0]

        def plain(x):
            if isinstance(x, ast.Call):
                return not x.args and not x.keywords and isinstance(x.func, ast.Attribute) and x.func.attr == 'keys' and plain(x.func.value)
            return isinstance(x, ast.Name) and x.id != g.target.id or isinstance(x, ast.Attribute) and plain(x.value)
        if len(e.generators) != 1 or not g.ifs or not isinstance(g.target, ast.Name) or not isinstance(e.elt, ast.Name) \
                or e.elt.id != g.target.id or not plain(g.iter):
            return None
        for c in g.ifs:
            if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.In, ast.NotIn))
                    and isinstance(c.left, ast.Name) and c.left.id == g.target.id and plain(c.comparators[0])):
                return None
        cur = []
        for s, v in self.ev(g.iter, st.copy()):
            if v[0] == '!' or self.coll_space(s, v) is None:
                return None
            cur.append((s, v))
        for k, c in enumerate(g.ifs):
            nxt = []
            for s, v in cur:
                for s2, b in self.ev(c.comparators[0], s):
                    if b[0] == '!' or not (b[0] == 'view' or b[0] == 'r' and b[1] in s2.heap and s2.heap[b[1]].kind in ('list', 'set', 'dict')):
                        return None
                    nxt.extend(self.set_op(s2, 'intersection' if isinstance(c.ops[0], ast.In) else 'difference', v, b, e, ('sel', k)))
            cur = nxt
        for s, v in cur:
            if v[0] == 'r' and kind == 'list':
                s.heap[v[1]] = s.heap[v[1]].copy(kind='list')
        return cur

    def coll_space(self, st, v):
        """The space of a symbolic collection with generic elements, else None."""
        if not (v[0] == 'view' and v[1] == 'keys' or v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind in ('list', 'set', 'dict')):
            return None
        sps = [sp for _, sp in self.iter_space(st, v, ast.Pass())]
        return sps[0] if len(sps) == 1 and not isinstance(sps[0], tuple) and sps[0].gen is not None else None

    def _comp(self, e, st, kind):
        E = _lazy()
        if kind != 'dict':
            sel = self._selection(e, st, kind)
            if sel is not None:
                return sel
        ref = self.alloc(st, E.Obj(kind), e)
        tmp = ('CT', self.nk(e), self.ctxid())
        st.env[tmp] = ref

        def leaf(s):
            if kind == 'dict':
                out = []
                for s2, kv in self.ev_list([e.key, e.value], s):
                    if kv and kv[0] == '!':
                        out.append(('X', s2, kv[1]))
                    else:
                        out.extend(('N', s3, None) for s3 in self.dict_set(s2, s2.env[tmp], kv[0], kv[1]))
                return out
            out = []
            for s2, v in self.ev(e.elt, s):
                if v[0] == '!':
                    out.append(('X', s2, v[1]))
                else:
                    self.coll_add(s2, s2.env[tmp], v)
                    out.append(('N', s2, None))
            return out
        outs = self._comp_gens(e, e.generators, 0, st, leaf)
        res = []
        for k, s, v in outs:
            r = s.env.pop(tmp, ref)
            if k == 'X':
                res.append((s, ('!', v)))
            else:
                res.append((s, r))
        return res

    def _comp_gens(self, e, gens, i, st, leaf):
        """Run the generators of a comprehension; leaf(st) handles each element."""
        if i == len(gens):
            return leaf(st)
        g = gens[i]
        outs = []
        for s, it in self.ev(g.iter, st):
            if it[0] == '!':
                outs.append(('X', s, it[1]))
                continue
            for s1, sp in self.iter_space(s, it, g.iter):
                if isinstance(sp, tuple):
                    outs.append(('X', s1, sp[1]))
                    continue

                def body(s2, item):
                    res = []
                    for s3, x in self.assign(g.target, item, s2):
                        if x is not None:
                            res.append(('X', s3, x[1]))
                            continue
                        cur = [s3]
                        for cond in g.ifs:
                            nxt = []
                            for s4 in cur:
                                for s5, v in self.ev(cond, s4):
                                    if v[0] == '!':
                                        res.append(('X', s5, v[1]))
                                        continue
                                    for s6, t in self.truth(s5, v):
                                        if isinstance(t, tuple):
                                            res.append(('X', s6, t[1]))
                                        elif t:
                                            nxt.append(s6)
                                        else:
                                            res.append(('N', s6, None))
                            cur = nxt
                        for s4 in cur:
                            res.extend(self._comp_gens(e, gens, i + 1, s4, leaf))
                    return res
                exh, broke, o2 = self.loop(g.iter, s1, sp, body, 'C')
                outs.extend(o2)
                outs.extend(('N', s2, None) for s2 in exh)
                outs.extend(('B', s2, None) for s2 in broke)
        return outs

    def genexp_quant(self, e, st, want):
        """any(<genexp>) (want=True) / all(<genexp>) (want=False), short-circuiting."""
        E = _lazy()

        def leaf(s):
            out = []
            for s2, v in self.ev(e.elt, s):
                if v[0] == '!':
                    out.append(('X', s2, v[1]))
                    continue
                for s3, t in self.truth(s2, v):
                    if isinstance(t, tuple):
                        out.append(('X', s3, t[1]))
                    elif t is want:
                        out.append(('B', s3, None))
                    else:
                        out.append(('N', s3, None))
            return out
        outs = self._comp_gens(e, e.generators, 0, st, leaf)
        res = []
        for k, s, v in outs:
            if k == 'X':
                res.append((s, ('!', v)))
            elif k == 'B':
                res.append((s, E.C(want)))
            else:
                res.append((s, E.C(not want)))
        return res

    def repeated(self, ref):
        """Does the current code run repeatedly for one object ref? (it is outside of a summarised loop)"""
        c = self.ctx
        oc = None
        for i, m in enumerate(c):
            if len(m) > 2 and m[2] == 'o':
                if oc is None:
                    n = self.uids[ref[1]][0]
                    oc = self.ctx_tab[n] if n >= 0 else ()
                if oc[:i + 1] != c[:i + 1]:
                    return True
        return False

    def varies(self, v):
        """Does v belong to the current iteration?"""
        if v[0] == 'c':
            return False
        if v[0] == '@' or len(v) == 2 and v[0] == 'r':
            return True
        return any(isinstance(x, tuple) and bool(x) and self.varies(x) for x in v)

    def coll_add(self, st, ref, v):
        E = _lazy()
        if ref[0] != 'r' or ref[1] not in st.heap:
            return
        self.touch(st, ref)
        o = st.heap[ref[1]]
        if E.has_old(v) or self.repeated(ref) and not self.varies(v):
            st.heap[ref[1]] = o.copy(weak=o.weak | {v}, ne=True)
        elif o.kind == 'set' and v in o.strong:
            pass
        else:
            st.heap[ref[1]] = o.copy(strong=o.strong + (v,), removed=o.removed - {v})

    # yield ------------------------------------------------------------------
    def ev_Yield(self, e, st):
        E = _lazy()
        out = []
        for s, v in (self.ev(e.value, st) if e.value is not None else [(st, E.NONE)]):
            if v[0] == '!':
                out.append((s, v))
                continue
            cb = self.yields.get(self.fids[-1])
            if cb is None:
                out.append((s, E.NONE))
            else:
                out.extend(cb(s, v))
        return out

    def ev_YieldFrom(self, e, st):
        E = _lazy()
        out = []
        for s, v in self.ev(e.value, st):
            if v[0] == '!':
                out.append((s, v))
                continue
            cb = self.yields.get(self.fids[-1])
            for s1, sp in self.iter_space(s, v, e):
                if isinstance(sp, tuple):
                    out.append((s1, sp))
                    continue

                def body(s2, item):
                    return [('X', a, b[1]) if b[0] == '!' else ('N', a, None) for a, b in (cb(s2, item) if cb else [(s2, E.NONE)])]
                exh, broke, o2 = self.loop(e, s1, sp, body, 'Y')
                out.extend((a, E.NONE) for a in exh + broke)
                out.extend((a, ('!', b)) for _, a, b in o2)
        return out

    def ev_Await(self, e, st):
        return self.ev(e.value, st)

    # ---------------------------------------------------------------- calls
    def ev_Call(self, e, st):
        E = _lazy()
        # quantifiers over generator expressions keep their short circuit
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1 and \
                isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            return self.genexp_quant(e.args[0], st, e.func.id == 'any')
        if isinstance(e.func, ast.Name) and e.func.id == 'next' and e.args and isinstance(e.args[0], ast.GeneratorExp):
            return self._next_genexp(e, st)
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return [(st, self._super(st))]
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals'):
            return [(st, E.S((e.func.id,)))]
        out = []
        for s, fv in self.ev(e.func, st):
            if fv[0] == '!':
                out.append((s, fv))
                continue
            with E.held(fv):
                evaluated = self._ev_args(e, s)
            for s2, args in evaluated:
                if isinstance(args, tuple) and args and args[0] == '!':
                    out.append((s2, args))
                    continue
                pos, kw = args
                with E.held(fv, tuple(pos), kw):
                    out.extend(self.call(s2, fv, tuple(pos), kw, e))
        return self.dedupe_vals(out)

    def _next_genexp(self, e, st):
        E = _lazy()
        g = e.args[0]
        tmp = ('NX', self.nk(e), self.ctxid())

        def leaf(s):
            out = []
            for s2, v in self.ev(g.elt, s):
                if v[0] == '!':
                    out.append(('X', s2, v[1]))
                else:
                    s2.env[tmp] = v
                    out.append(('B', s2, None))
            return out
        res = []
        for k, s, v in self._comp_gens(g, g.generators, 0, st, leaf):
            if k == 'X':
                res.append((s, ('!', v)))
            elif k == 'B':
                res.append((s, s.env.pop(tmp)))
            elif len(e.args) > 1:
                res.extend(self.ev(e.args[1], s))
            else:
                res.append(self.raise_(s, StopIteration, e))
        return res

    def _super(self, st):
        fi = self.stack[-1]
        f = fi
        while f.cls is None and f.parent is not None:
            f = f.parent
        fid = self.fids[-1]
        selfv = st.env.get((fid, '!self'))
        if selfv is None:
            c = st.env.get((fid, '!closure'))
            while c is not None and c[1] is not None and selfv is None:
                selfv = st.env.get((c[1], '!self'))
                c = st.env.get((c[1], '!closure'))
        return ('super', ('cls', f.cls), selfv or _lazy().NONE)

    def _ev_args(self, e, st):
        """-> list of (st, ([pos], {kw})) or (st, raise)."""
        acc = [(st, ([], {}))]
        for a in e.args:
            nxt = []
            for s, pk in acc:
                if isinstance(pk, tuple) and pk and pk[0] == '!':
                    nxt.append((s, pk))
                    continue
                pos, kw = pk
                for s2, v in self.ev_held(a.value if isinstance(a, ast.Starred) else a, s, tuple(pos)):
                    if v[0] == '!':
                        nxt.append((s2, v))
                    elif isinstance(a, ast.Starred):
                        if v[0] == 't':
                            nxt.append((s2, (pos + list(v[1]), kw)))
                        elif v[0] == 'r' and v[1] in s2.heap and s2.heap[v[1]].kind == 'list' and s2.heap[v[1]].exact():
                            nxt.append((s2, (pos + list(s2.heap[v[1]].strong), kw)))
                        else:
                            nxt.append((s2, (pos + [('*', v)], kw)))
                    else:
                        nxt.append((s2, (pos + [v], kw)))
            acc = nxt
        for k in e.keywords:
            nxt = []
            for s, pk in acc:
                if isinstance(pk, tuple) and pk and pk[0] == '!':
                    nxt.append((s, pk))
                    continue
                pos, kw = pk
                for s2, v in self.ev_held(k.value, s, tuple(pos), kw):
                    if v[0] == '!':
                        nxt.append((s2, v))
                        continue
                    kw2 = dict(kw)
                    if k.arg is not None:
                        kw2[k.arg] = v
                    elif v[0] == 'r' and v[1] in s2.heap and s2.heap[v[1]].kind == 'dict' and \
                            all(x[0] == 'c' for x, _ in s2.heap[v[1]].strong):
                        o = s2.heap[v[1]]
                        for kk, vv in o.strong:
                            kw2[kk[2]] = vv
                        if not o.exact():
                            kw2['**'] = v
                    else:
                        kw2['**'] = v
                    nxt.append((s2, (pos, kw2)))
            acc = nxt
        return acc

    def call(self, st, fv, args, kwargs, node):
        E = _lazy()
        r = self.world.call(self, st, fv, args, kwargs, node)
        if r is not None:
            return r
        t = fv[0]
        if t == 'fn':
            return self.inline(st, fv, None, args, kwargs, node)
        if t == 'bm':
            f = fv[1]
            if f[0] == 'fn':
                return self.inline(st, f, fv[2], (fv[2],) + tuple(args), kwargs, node)
            return self.call(st, f, (fv[2],) + tuple(args), kwargs, node)
        if t == 'cls':
            return self.instantiate(st, fv, args, kwargs, node)
        if t == 'partial':
            kw = dict(fv[3])
            kw.update(kwargs)
            return self.call(st, fv[1], tuple(fv[2]) + tuple(args), kw, node)
        if t == 'H':
            return self.call_host(st, fv[1].obj, args, kwargs, node)
        if t == 'hm':
            return self.call_hm(st, fv[1], fv[2], args, kwargs, node)
        if t == 'r':
            o = st.heap.get(fv[1])
            if o is not None and o.kind == 'inst':
                c, e = self.class_lookup(o.cls, '__call__', st) if o.cls[0] != 'other' else (None, None)
                if e is not None and e[0] == 'func':
                    return self.inline(st, ('fn', e[1].qual, None), fv, (fv,) + tuple(args), kwargs, node)
            if o is not None and o.kind == 'class':
                return self.instantiate(st, fv, args, kwargs, node)
        if t == 'c':
            return [self.raise_(st, TypeError, node)]
        return self.world.opaque_call(self, st, fv, args, kwargs, node)

    def call_host(self, st, obj, args, kwargs, node):
        E = _lazy()
        try:
            m = self.models.get(obj)
        except TypeError:
            m = None
        if m is not None:
            return m(self, st, args, kwargs, node)
        if getattr(obj, '__name__', '') in ('__getitem__', '__class_getitem__') and hasattr(obj, '__self__') and len(args) == 1:
            return self.get_item(st, E.H(obj.__self__), args[0], node)
        if isinstance(obj, type) and issubclass(obj, BaseException):
            o = E.Obj('inst', E.H(obj), {'args': ('t', tuple(args))})
            return [(st, self.alloc(st, o, node, 'exc'))]
        # constant folding of pure standard library calls
        try:
            ha = [self.to_host(st, a) for a in args]
            hk = {k: self.to_host(st, v) for k, v in kwargs.items()}
            if is_pure(obj):
                try:
                    return [(st, self.wrap_host(st, obj(*ha, **hk), node))]
                except Exception as ex:
                    return [self.raise_(st, type(ex), node)]
        except NotHost:
            pass
        self.unknown[('host', getattr(obj, '__module__', ''), getattr(obj, '__qualname__', repr(obj)))] += 1
        return [(st, E.S(('hostcall', repr(E.HW(obj)), self.at(), self.nkey(node))))]

    def inline(self, st, fv, selfv, args, kwargs, node):
        E = _lazy()
        fi = self.repo.funcs[fv[1]]
        if fi.qual in self.memo:
            return self.memoised(st, fi, fv, selfv, args, kwargs, node)
        return self.inline1(st, fi, fv, selfv, args, kwargs, node)

    def memoised(self, st, fi, fv, selfv, args, kwargs, node):
        E = _lazy()
        states, out = [st], []
        for a in tuple(args) + tuple(kwargs.values()):
            nxt = []
            for s in states:
                for s2, h in self.call(s, E.H(hash), (a,), {}, node):
                    if h[0] == '!':
                        out.append((s2, h))
                    else:
                        nxt.append(s2)
            states = self.dedupe_states(nxt)
        sch = ('cls', self.repo.require_class('oblate.schema', 'Schema'))
        old = any(x[0] == 'r' and x[1] in st.heap and st.heap[x[1]].kind == 'inst' and self.issub(st.heap[x[1]].cls, sch, st)
                  for x in tuple(args) + tuple(kwargs.values()))
        for s in states:
            if old:     # a schema object changes while the result is remembered
                out.append((s.copy(), E.S(('result of an earlier call', fi.qual), 'any')))
            a = tuple(self.world.memo(self, s, x, node) for x in args)
            k = {n: self.world.memo(self, s, x, node) for n, x in kwargs.items()}
            key = ('SA', ('memo', fi.qual), (a, tuple(sorted(k.items()))))
            if key in s.env:
                out.append((s, s.env[key]))
                continue
            for s2, v in self.inline1(s, fi, fv, selfv, a, k, node):
                if v[0] != '!' and not E.has_old(v):
                    s2.env[key] = v
                out.append((s2, v))
        return out

    def inline1(self, st, fi, fv, selfv, args, kwargs, node):
        E = _lazy()
        if fi.is_cm:
            return [(st, ('gcm', fv, tuple(args), tuple(sorted(kwargs.items()))))]
        depth = sum(1 for f in self.stack if f is fi)
        if depth >= getattr(self.world, 'max_recursion', 4) or len(self.stack) > 60:
            self.unknown[('recursion', fi.qual)] += 1
            f = getattr(self.world, 'recursion', None)
            if f is not None:
                return f(self, st, fi, args, kwargs, node)
            return [(st, E.old('any'))]
        self.fn_seen[fi.qual] += 1
        saved = (self.ctx, self.stack, self.fids)
        self.ctx = self.ctx + (('call', self.nk(node), fi.qual),)
        fid = self.ctxid()
        self.stack = self.stack + [fi]
        self.fids = self.fids + [fid]
        res = []
        try:
            return self.dedupe_vals(self.inline_(st, fi, fid, fv, selfv, args, kwargs, node, res))
        finally:
            self.ctx, self.stack, self.fids = saved

    def inline_(self, st, fi, fid, fv, selfv, args, kwargs, node, res):
        E = _lazy()
        if True:
            for s, err in self.bind(st, fi, fid, args, kwargs, fv[2], node):
                if err is not None:
                    res.append((s, err))
                    continue
                if selfv is not None:
                    s.env[(fid, '!self')] = selfv
                elif fi.cls is not None and args and fi.parent is None:
                    s.env[(fid, '!self')] = args[0]
                if fi.is_gen and fid not in self.yields:
                    res.extend(self.run_generator(s, fi, fid, node))
                    continue
                if isinstance(fi.node, ast.Lambda):
                    res.extend(self.ev(fi.node.body, s))
                    continue
                for kind, s2, val in self.exec_block(fi.node.body, s):
                    if kind == 'R':
                        res.append((s2, val))
                    elif kind == 'X':
                        res.append((s2, ('!', val)))
                    else:
                        res.append((s2, E.NONE))
            for s, v in res:
                self.world.returned(self, s, fi, v)
                if not fi.has_inner:
                    for k in [k for k in s.env if k[0] == fid or k[0] == 'FV' and k[1] == fid]:
                        del s.env[k]
        return res

    def run_generator(self, st, fi, fid, node):
        """A generator consumed as a whole: collects what it yields."""
        E = _lazy()
        ref = self.alloc(st, E.Obj('list'), node, 'gen')
        slot = (fid, '!yielded')
        st.env[slot] = ref

        def cb(s, v):
            self.coll_add(s, s.env[slot], v)
            return [(s, E.NONE)]
        self.yields[fid] = cb
        try:
            res = []
            for kind, s, val in self.exec_block(fi.node.body, st):
                if kind == 'X':
                    res.append((s, ('!', val)))
                else:
                    res.append((s, s.env[slot]))
            return res
        finally:
            del self.yields[fid]

    def bind(self, st, fi, fid, args, kwargs, closure, node):
        """Bind arguments -> list of (st, None | raise)."""
        E = _lazy()
        a = fi.node.args
        params = list(a.posonlyargs) + list(a.args)
        defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
        env = st.env
        env[(fid, '!closure')] = ('cl', closure)
        pos = list(args)
        star = None
        if any(x[0] == '*' for x in pos):
            i = next(i for i, x in enumerate(pos) if x[0] == '*')
            star = pos[i][1]
            rest = pos[i + 1:]
            pos = pos[:i]
        kw = dict(kwargs)
        dstar = kw.pop('**', None)
        missing = []
        for i, p in enumerate(params):
            if i < len(pos):
                env[(fid, p.arg)] = pos[i]
            elif p.arg in kw and p not in a.posonlyargs:
                env[(fid, p.arg)] = kw.pop(p.arg)
            elif star is not None and a.vararg is None:
                env[(fid, p.arg)] = ('s', ('stararg', star, i), 'any') if not E.has_old(star) else E.old('any')
            elif defaults[i] is not None:
                missing.append((p, defaults[i]))
            elif dstar is not None:
                env[(fid, p.arg)] = ('s', ('dstar', dstar, p.arg), 'any') if not E.has_old(dstar) else E.old('any')
            else:
                return [self.raise_(st, TypeError, node, f'missing argument {p.arg}')]
        extra = pos[len(params):]
        if a.vararg is not None:
            if star is not None:
                if not extra:
                    env[(fid, a.vararg.arg)] = star
                else:
                    o = E.Obj('list', strong=tuple(extra))
                    env[(fid, a.vararg.arg)] = self.alloc(st, self.extend_obj(st, o, star), node, 'va')
            else:
                env[(fid, a.vararg.arg)] = ('t', tuple(extra))
        elif extra:
            return [self.raise_(st, TypeError, node, 'too many arguments')]
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                env[(fid, p.arg)] = kw.pop(p.arg)
            elif d is not None:
                if dstar is not None and False:
                    pass
                missing.append((p, d))
            elif dstar is not None:
                env[(fid, p.arg)] = ('s', ('dstar', dstar, p.arg), 'any') if not E.has_old(dstar) else E.old('any')
            else:
                return [self.raise_(st, TypeError, node, f'missing keyword {p.arg}')]
        if a.kwarg is not None:
            o = E.Obj('dict', strong=tuple((E.C(k), v) for k, v in kw.items()))
            if dstar is not None:
                o = self.merge_dict(st, o, dstar)
            env[(fid, a.kwarg.arg)] = self.alloc(st, o, node, 'kw')
        elif kw:
            return [self.raise_(st, TypeError, node, 'unexpected keyword')]
        sts = [(st, None)]
        for p, d in missing:
            nxt = []
            for s, err in sts:
                if err is not None:
                    nxt.append((s, err))
                    continue
                for s2, v in self.ev_default(s, d, fi):
                    if v[0] == '!':
                        nxt.append((s2, v))
                    else:
                        s2.env[(fid, p.arg)] = v
                        nxt.append((s2, None))
            sts = nxt
        return sts

    def ev_default(self, st, d, fi):
        """Default values are evaluated once, where the function is defined."""
        from .engine import ModuleFrame
        if fi.parent is not None:
            return self.ev(d, st)
        key = ('G', fi.mod.name, ('default', fi.qual, d.lineno, d.col_offset))
        v = st.env.get(key)
        if v is not None:
            return [(st, v)]
        saved = (self.ctx, self.stack, self.fids)
        self.ctx = (('glob', fi.mod.name, fi.qual, d.lineno, d.col_offset),)
        self.stack = [ModuleFrame(fi.mod)]
        self.fids = [('glob', fi.qual)]
        try:
            out = self.ev(d, st)
            for s, v in out:
                if v[0] != '!' and v[0] != 'c':
                    s.env[key] = v
            return out
        finally:
            self.ctx, self.stack, self.fids = saved

    def dataclass_fields(self, q):
        """Field names if the class is a dataclass or a NamedTuple, else None."""
        ci = self.repo.classes[q]
        nm = lambda d: d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else \
            nm(d.func) if isinstance(d, ast.Call) else None
        kind = None
        if any(nm(d) == 'dataclass' for d in ci.node.decorator_list):
            kind = 'dc'
        if any(nm(b) == 'NamedTuple' for b in ci.node.bases):
            kind = 'nt'
        if kind is None:
            return None
        return kind, [(s.target.id, s.value) for s in ci.node.body
                      if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]

    def instantiate(self, st, cv, args, kwargs, node):
        E = _lazy()
        exc_base = self.issub(cv, E.H(BaseException), st)
        o = E.Obj('inst', cv, {'args': ('t', tuple(args))} if exc_base else {})
        if cv[0] == 'cls':
            df = self.dataclass_fields(cv[1])
            if df is not None:
                kind, flds = df
                attrs = {}
                pos = list(args)
                for nm, d in flds:
                    if pos:
                        attrs[nm] = pos.pop(0)
                    elif nm in kwargs:
                        attrs[nm] = kwargs[nm]
                    elif d is not None:
                        r = self.ev(d, st)
                        st, attrs[nm] = r[0]
                    else:
                        return [self.raise_(st, TypeError, node)]
                if kind == 'nt':
                    o = E.Obj('inst', cv, attrs, flags=frozenset({'ntuple'}))
                else:
                    o = E.Obj('inst', cv, attrs)
                return [(st, self.alloc(st, o, node, ('new', cv)))]
        ref = self.alloc(st, o, node, ('new', cv))
        c, e = self.class_lookup(cv, '__init__', st)
        if e is not None and e[0] == 'func':
            out = []
            with E.held(ref):
                res = self.inline(st, ('fn', e[1].qual, None), ref, (ref,) + tuple(args), kwargs, node)
            for s, v in res:
                out.append((s, v if v[0] == '!' else ref))
            return out
        return [(st, ref)]

    # -------------------------------------------------------------- attributes
    def get_attr(self, st, v, name, node):
        E = _lazy()
        r = self.world.attr(self, st, v, name, node)
        if r is not None:
            return r
        t = v[0]
        sa = st.env.get(('SA', v, name))
        if sa is not None:
            return [(st, sa)]
        if t == 'r':
            o = st.heap.get(v[1])
            if o is None:
                return [(st, ('s', ('attr', v, name), 'any'))]
            if o.kind == 'inst':
                return self.inst_attr(st, v, o, name, node)
            if o.kind == 'class':
                return self.class_attr(st, v, name, node)
            k = {'list': list, 'dict': dict, 'set': set}.get(o.kind)
            if k is not None and o.cls is None and 'user' not in o.flags and name not in o.attrs and not hasattr(k, name):
                return [self.raise_(st, AttributeError, node, name)]
            return [(st, ('hm', v, name))]
        if t == 's':
            tag = v[2]
            if isinstance(tag, tuple) and tag[0] == 'inst' and tag[1][0] == 'cls' or tag == 'field':
                cv = tag[1] if isinstance(tag, tuple) else self.field_class()
                return self.sym_inst_attr(st, v, cv, name, node)
            if tag in ('str', 'name', 'key', 'dkey', 'list', 'dict', 'set') or isinstance(tag, tuple) and tag[0] == 'hinst':
                return [(st, ('hm', v, name))]
            if name in E_METHODS and tag == 'any':
                return [(st, ('hm', v, name))]
            return [(st, ('s', ('attr', v, name), self.world.attr_tag(v, name)))]
        if t == 'o':
            tag = v[1]
            if isinstance(tag, tuple) and tag[0] == 'inst' and tag[1][0] == 'cls' or tag == 'field':
                cv = tag[1] if isinstance(tag, tuple) else self.field_class()
                return self.sym_inst_attr(st, v, cv, name, node)
            if tag in ('str', 'name', 'key', 'dkey', 'list', 'dict', 'set') or name in E_METHODS:
                return [(st, ('hm', v, name))]
            return [(st, E.old(self.world.attr_tag(v, name)))]
        if t == 'cls':
            return self.class_attr(st, v, name, node)
        if t == 'mod':
            if name == '__name__':
                return [(st, E.C(v[1]))]
            if f'{v[1]}.{name}' in self.repo.modules and self.repo.find_global(v[1], name) is None:
                return [(st, ('mod', f'{v[1]}.{name}'))]
            return self.global_value(st, v[1], name, node)
        if t == 'super':
            return self.super_attr(st, v, name, node)
        if t == 'H':
            o = v[1].obj
            try:
                x = getattr(o, name)
            except AttributeError:
                return [self.raise_(st, AttributeError, node, name)]
            except Exception:
                return [(st, ('s', ('attr', v, name), 'any'))]
            if isinstance(o, types.ModuleType) or isinstance(o, type) and not callable(x) or not callable(x) or \
                    isinstance(x, type) or isinstance(o, type):
                return [(st, self.wrap_host(st, x, node))]
            return [(st, E.H(x))]
        if t == 'fn':
            fi = self.repo.funcs[v[1]]
            if name in ('__name__', '__qualname__'):
                return [(st, E.C(fi.name))]
            if name == '__doc__':
                return [(st, E.S(('doc', v[1]), 'str'))]
            return [self.raise_(st, AttributeError, node, name)]
        if t == 'bm':
            if name == '__self__':
                return [(st, v[2])]
            if name == '__func__':
                return [(st, v[1])]
            return self.get_attr(st, v[1], name, node)
        if t in ('c', 't', 'view', 'len', 'zip', 'enum'):
            if t == 'c' and not hasattr(v[2], name):
                return [self.raise_(st, AttributeError, node, name)]
            if t == 't' and not hasattr(tuple, name):
                return [self.raise_(st, AttributeError, node, name)]
            if t == 'c' and v[1] == 'NoneType' and name not in ('__class__',):
                return [self.raise_(st, AttributeError, node, name)]
            return [(st, ('hm', v, name))]
        if t == 'gcm':
            return [(st, ('hm', v, name))]
        return [(st, E.old('any'))]

    def func_value(self, fi, v, cv):
        """A class attribute that is a function, as seen through instance v / class cv."""
        fv = ('fn', fi.qual, None)
        if fi.kind == 'static':
            return fv
        if fi.kind == 'class':
            return ('bm', fv, cv)
        if v is None:
            return fv
        return ('bm', fv, v)

    def inst_attr(self, st, v, o, name, node):
        E = _lazy()
        if name == '__class__':
            return [(st, o.cls)]
        if name == '__dict__':
            return [(st, self.alloc(st, E.Obj('dict', strong=tuple((E.C(k), x) for k, x in o.attrs.items())), node, 'dict'))]
        if o.cls[0] == 'other':
            if name in o.attrs:
                return [(st, o.attrs[name])]
            return [(st, E.old('any'))]
        c, e = (None, None)
        if o.cls[0] in ('cls', 'H', 'r'):
            c, e = self.class_lookup(o.cls, name, st)
        if e is not None and e[0] == 'func' and e[1].kind == 'property' and not e[1].decos:
            cached = any(True for d in e[1].node.decorator_list
                         if (isinstance(d, ast.Name) and d.id == 'cached_property') or
                         (isinstance(d, ast.Attribute) and d.attr == 'cached_property'))
            if cached and name in o.attrs:
                return [(st, o.attrs[name])]
            res = self.inline(st, ('fn', e[1].qual, None), v, (v,), {}, node)
            if cached:
                for s, x in res:
                    if x[0] != '!' and v[1] in s.heap:
                        oo = s.heap[v[1]]
                        s.heap[v[1]] = oo.copy(attrs={**oo.attrs, name: x})
            return res
        if name in o.attrs:
            return [(st, o.attrs[name])]
        if e is not None:
            return self.class_entry(st, c, name, e, v, o.cls, node)
        if 'open' in o.flags:
            return [(st, ('s', ('attr', v, name), self.world.attr_tag(v, name)))]
        c, e = self.class_lookup(o.cls, '__getattr__', st) if o.cls[0] in ('cls', 'r') else (None, None)
        if e is not None and e[0] == 'func':
            return self.inline(st, ('fn', e[1].qual, None), v, (v, E.C(name)), {}, node)
        return [self.raise_(st, AttributeError, node, name)]

    def sym_inst_attr(self, st, v, cv, name, node):
        E = _lazy()
        c, e = self.class_lookup(cv, name, st)
        if e is not None and e[0] == 'func':
            if e[1].kind == 'property':
                if name in self.world.named:
                    tag = self.world.attr_tag(v, name)
                    return [(st, ('s', ('attr', v, name), tag) if not E.has_old(v) else E.old(tag))]
                return self.inline(st, ('fn', e[1].qual, None), v, (v,), {}, node)
            return [(st, self.func_value(e[1], v, cv))]
        if e is not None and e[0] == 'expr':
            return self.class_entry(st, c, name, e, v, cv, node)
        tag = self.world.attr_tag(v, name)
        if v[0] == 'o' and len(v) > 2 and v[2][0] == 'rec' and (cv, name) not in self.world.clobbered:
            for n, x in v[2][1]:
                if n == name:
                    return [(st, x)]
            return [self.raise_(st, AttributeError, node, name)]
        if E.has_old(v):
            return [(st, E.old(tag))]
        return [(st, ('s', ('attr', v, name), tag))]

    def class_entry(self, st, owner, name, e, v, cv, node):
        """Value of class attribute entry e (owner.name) seen through v / cv."""
        E = _lazy()
        kind = e[0]
        if kind == 'func':
            fi = e[1]
            if fi.decos or (owner[0] == 'cls' and any(a[0] == name for a in self.repo.classes[owner[1]].attrs.get('!accessors', ()))
                            and fi.kind != 'property'):
                return self.bind_value(self.class_value(st, owner, name, e), v, cv, node, fi.kind)
            if fi.kind == 'property':
                if v is None:
                    return [(st, ('prop', fi.qual))]
                return self.inline(st, ('fn', fi.qual, None), v, (v,), {}, node)
            return [(st, self.func_value(fi, v, cv))]
        if kind == 'class':
            return [(st, ('cls', e[1].qual))]
        if kind == 'accessor':
            return [(st, E.NONE)]
        if kind == 'value':
            x = e[1]
            return self.bind_value([(st, x)], v, cv, node)
        if kind == 'host':
            if v is not None:
                return [(st, ('hm', v, name))]
            return [(st, ('hm', cv, name))]
        if kind == 'expr':
            # alias of another function of the same class body
            if isinstance(e[1], ast.Name) and owner[0] == 'cls':
                al = self.repo.classes[owner[1]].attrs.get(e[1].id)
                if al is not None and al is not e:
                    return self.class_entry(st, owner, e[1].id, al, v, cv, node)
            return self.bind_value(self.class_value(st, owner, name, e), v, cv, node)
        return [(st, E.old('any'))]

    def bind_value(self, res, v, cv, node, kind=None):
        E = _lazy()
        out = []
        for s, x in res:
            if x[0] == '!':
                out.append((s, x))
                continue
            if x[0] == 'r' and x[1] in s.heap and s.heap[x[1]].kind == 'inst' and s.heap[x[1]].cls[0] == 'cls':
                c2, e2 = self.class_lookup(s.heap[x[1]].cls, '__get__', s)
                if e2 is not None and e2[0] == 'func':
                    out.extend(self.inline(s, ('fn', e2[1].qual, None), x, (x, v if v is not None else E.NONE, cv), {}, node))
                    continue
            if x[0] == 'fn' and kind == 'class':
                out.append((s, ('bm', x, cv)))
                continue
            if x[0] == 'fn' and v is not None and kind != 'static':
                out.append((s, ('bm', x, v)))
                continue
            out.append((s, x))
        return out

    def class_value(self, st, owner, name, e):
        """Evaluate (once per state) a class body expression or decorated function."""
        E = _lazy()
        from .engine import ModuleFrame
        key = ('CA', owner[1], name)
        x = st.env.get(key)
        if x is not None:
            return [(st, x)]
        ci = self.repo.classes[owner[1]]
        saved = (self.ctx, self.stack, self.fids)
        self.ctx = (('classattr', owner[1], name),)
        mf = ModuleFrame(ci.mod)
        mf.cls = owner[1]
        self.stack = [mf]
        fid = ('classattr', owner[1], name)
        self.fids = [fid]
        st.env[(fid, '!classbody')] = E.C(True)
        try:
            if e[0] == 'expr':
                node = e[1]
                for nm in {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}:
                    al = ci.attrs.get(nm)
                    if al is not None and al[0] in ('expr', 'func', 'class') and nm != name:
                        if al[0] == 'func':
                            st.env[(fid, nm)] = ('fn', al[1].qual, None)
                        elif al[0] == 'class':
                            st.env[(fid, nm)] = ('cls', al[1].qual)
                        else:
                            r = self.class_value(st, owner, nm, al)
                            if len(r) == 1:
                                st = r[0][0]
                                st.env[(fid, nm)] = r[0][1]
                res = self.ev(node, st)
            else:
                fi = e[1]
                res = [(st, ('fn', fi.qual, None))]
                for d in reversed(fi.decos):
                    nxt = []
                    for s, x in res:
                        for s2, dv in self.ev(d, s):
                            nxt.extend(self.call(s2, dv, (x,), {}, d))
                    res = nxt
                for nm, acc, afi in ci.attrs.get('!accessors', ()):
                    if nm == name:
                        nxt = []
                        for s, x in res:
                            for s2, m in self.get_attr(s, x, acc, afi.node):
                                for s3, y in self.call(s2, m, (('fn', afi.qual, None),), {}, afi.node):
                                    nxt.append((s3, x))
                        res = nxt
            for s, x in res:
                if x[0] != '!' and x[0] != 'c':
                    s.env[key] = x
                for k in [k for k in s.env if k[0] == fid]:
                    del s.env[k]
            return res
        finally:
            self.ctx, self.stack, self.fids = saved

    def class_attr(self, st, cv, name, node):
        E = _lazy()
        if name in ('__name__', '__qualname__'):
            if cv[0] == 'cls':
                return [(st, E.C(self.repo.classes[cv[1]].name))]
            o = st.heap.get(cv[1])
            if o is not None and name in o.attrs:
                return [(st, o.attrs[name])]
            return [(st, ('s', ('attr', cv, name), 'str'))]
        if name == '__mro__':
            return [(st, ('t', tuple(self.mro(cv, st))))]
        if name == '__bases__':
            if cv[0] == 'r':
                return [(st, ('t', st.heap[cv[1]].strong))]
            return [(st, ('t', tuple(self.mro(cv, st)[1:])))]
        if name == '__dict__':
            return [(st, self.class_dict(st, cv, node))]
        if name == '__module__':
            return [(st, E.S(('modname', cv), 'str'))]
        sa = st.env.get(('SA', cv, name))
        if sa is not None:
            return [(st, sa)]
        for c in self.mro(cv, st):
            sa = st.env.get(('SA', c, name))
            if sa is not None:
                return [(st, sa)]
        c, e = self.class_lookup(cv, name, st)
        if e is not None:
            return self.class_entry(st, c, name, e, None, cv, node)
        if cv[0] == 'r' and 'open' in st.heap[cv[1]].flags:
            return [(st, ('s', ('attr', cv, name), self.world.attr_tag(cv, name)))]
        # symbolic bases decide
        for c in self.mro(cv, st):
            if c[0] == 's':
                return [(st, ('s', ('attr', c, name), self.world.attr_tag(c, name)))]
        return [self.raise_(st, AttributeError, node, name)]

    def class_dict(self, st, cv, node):
        E = _lazy()
        if cv[0] == 'r':
            o = st.heap[cv[1]]
            d = E.Obj('dict', strong=tuple((k if isinstance(k, tuple) else E.C(k), x) for k, x in o.attrs.items()
                                           if not (isinstance(k, str) and k.startswith('!'))),
                      others=o.others, flags=o.flags & frozenset({'excl'}) | {('live', cv[1])})
            return self.alloc(st, d, node, ('classdict', cv))
        ci = self.repo.classes[cv[1]]
        strong = []
        for k, e in ci.attrs.items():
            if k.startswith('!'):
                continue
            if e[0] == 'func':
                strong.append((E.C(k), ('fn', e[1].qual, None)))
            elif e[0] == 'class':
                strong.append((E.C(k), ('cls', e[1].qual)))
            elif e[0] == 'expr':
                r = self.class_value(st, cv, k, e)
                strong.append((E.C(k), r[0][1]))
        return self.alloc(st, E.Obj('dict', strong=tuple(strong), flags=frozenset({('live', None)})), node, ('classdict', cv))

    def super_attr(self, st, v, name, node):
        E = _lazy()
        cur, selfv = v[1], v[2]
        if selfv[0] == 'r' and selfv[1] in st.heap:
            o = st.heap[selfv[1]]
            cv = o.cls if o.kind == 'inst' else selfv
        elif selfv[0] == 'cls':
            cv = selfv
        elif selfv[0] in 'so' and isinstance(selfv[-1], tuple) and selfv[-1][0] == 'inst':
            cv = selfv[-1][1]
        elif selfv[0] in 'so' and selfv[-1] == 'field':
            cv = cur
        else:
            cv = cur
        m = self.mro(cv, st)
        if cur not in m:
            cv = cur
        c, e = self.class_lookup(cv, name, st, after=cur)
        if e is None:
            return [(st, ('hm', selfv, 'super:' + name))]
        if e[0] == 'host':
            return [(st, ('hm', selfv, 'super:' + name))]
        if e[0] == 'func' and e[1].kind == 'static':
            return [(st, ('fn', e[1].qual, None))]
        if e[0] == 'func' and e[1].kind == 'property':
            return self.inline(st, ('fn', e[1].qual, None), selfv, (selfv,), {}, node)
        if e[0] == 'func':
            return [(st, ('bm', ('fn', e[1].qual, None), selfv))]
        return self.class_entry(st, c, name, e, selfv, cv, node)

    def set_attr(self, st, v, name, val, node, raw=False):
        """-> list of (st, None | raise)."""
        E = _lazy()
        r = self.world.setattr(self, st, v, name, val, node)
        if r is not None:
            return r
        if v[0] == 'r' and v[1] in st.heap:
            o = st.heap[v[1]]
            if o.kind == 'inst' and o.cls[0] == 'cls':
                if not raw:
                    c, e = self.class_lookup(o.cls, '__setattr__', st)
                    if e is not None and c[0] == 'cls' and e[0] == 'func':
                        return [(s, x if x[0] == '!' else None) for s, x in
                                self.inline(st, ('fn', e[1].qual, None), v, (v, ('c', 'str', name), val), {}, node)]
                c, e = self.class_lookup(o.cls, name, st)
                if e is not None and c[0] == 'cls':
                    ci = self.repo.classes[c[1]]
                    acc = [a for a in ci.attrs.get('!accessors', ()) if a[0] == name and a[1] == 'setter']
                    if e[0] == 'func' and e[1].kind == 'property':
                        if acc:
                            return [(s, x if x[0] == '!' else None) for s, x in
                                    self.inline(st, ('fn', acc[0][2].qual, None), v, (v, val), {}, node)]
                        return [self.raise_(st, AttributeError, node, name)]
                    if e[0] in ('expr', 'func') and (e[0] == 'expr' or e[1].decos or acc):
                        out = []
                        for s, x in self.class_value(st, c, name, e):
                            done = False
                            if x[0] == 'r' and x[1] in s.heap and s.heap[x[1]].kind == 'inst' and s.heap[x[1]].cls[0] == 'cls':
                                c2, e2 = self.class_lookup(s.heap[x[1]].cls, '__set__', s)
                                if e2 is not None and e2[0] == 'func':
                                    done = True
                                    out.extend((s2, y if y[0] == '!' else None) for s2, y in
                                               self.inline(s, ('fn', e2[1].qual, None), x, (x, v, val), {}, node))
                            if not done:
                                out.extend(self.store_attr(s, v, name, val, node))
                        return out
            return self.store_attr(st, v, name, val, node)
        if v[0] == 'o' and len(v) > 2 and v[2][0] == 'rec':
            # an object created by the operation
            self.world.clobbered.add((v[1][1], name))
            return [(st, None)]
        self.world.mutate(self, st, v, ('attr', name), node)
        if not E.has_old(v):
            st.env[('SA', v, name)] = val
        return [(st, None)]

    def store_attr(self, st, v, name, val, node):
        self.world.mutate(self, st, v, ('attr', name), node)
        o = st.heap[v[1]]
        attrs = dict(o.attrs)
        attrs[name] = val
        st.heap[v[1]] = o.copy(attrs=attrs)
        self.show_live(st, v[1], name, val)
        self.writes.add((self.loc(node), name))
        return [(st, None)]

    def show_live(self, st, cls, name, val):
        """vars() of a class shows its attributes as they are."""
        k = name if isinstance(name, tuple) else ('c', 'str', name)
        for u, d in list(st.heap.items()):
            if d.kind == 'dict' and ('live', cls) in d.flags:
                st.heap[u] = d.copy(strong=tuple(x for x in d.strong if x[0] != k) + ((k, val),))

    # -------------------------------------------------------------- statements
    def exec_block(self, body, st):
        cur = [st]
        outs = []
        for stmt in body:
            nxt = []
            for s in cur:
                for kind, s2, val in self.exec(stmt, s):
                    if kind == 'N':
                        nxt.append(s2)
                    else:
                        outs.append((kind, s2, val))
            lv = self.live_after(stmt)
            if lv is not None:
                for s in nxt:
                    self.drop_dead(s, lv)
            if len(nxt) >= 2:
                nxt = self.dedupe_states(nxt)
            cur = nxt
            if not cur:
                break
        outs.extend(('N', s, None) for s in cur)
        if len(outs) >= 6:
            outs = self.dedupe_outs(outs)
        return outs

    def liveness(self):
        fi = self.stack[-1] if self.stack else None
        if fi is None or not hasattr(fi, 'node'):
            return None
        lv = self.live_tab.get(fi)
        if lv is None:
            from .liveness import Liveness
            lv = self.live_tab[fi] = Liveness(fi)
        return lv if lv.always is not None else None

    def live_after(self, stmt):
        lv = self.liveness()
        if lv is None:
            return None
        r = lv.live.get(id(stmt))
        return None if r is None else r | lv.always

    def drop_dead(self, st, live):
        fid = self.fids[-1]
        fi = self.stack[-1]
        names = fi.locals | fi.params
        dead = [k for k in st.env if k[0] == fid and k[1] in names and k[1] not in live]
        for k in dead:
            del st.env[k]

    def exec(self, stmt, st):
        self.tick()
        self.stmts_seen.add(self.nkey(stmt)[:2])
        m = getattr(self, 'ex_' + type(stmt).__name__, None)
        if m is None:
            self.unknown[('stmt', type(stmt).__name__)] += 1
            return [('N', st, None)]
        return m(stmt, st)

    def ex_Pass(self, n, st):
        return [('N', st, None)]

    ex_Global = ex_Nonlocal = ex_Pass

    def ex_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [('N', st, None)]
        return [('X', s, v[1]) if v[0] == '!' else ('N', s, None) for s, v in self.ev(n.value, st)]

    def ex_Return(self, n, st):
        E = _lazy()
        if n.value is None:
            return [('R', st, E.NONE)]
        return [('X', s, v[1]) if v[0] == '!' else ('R', s, v) for s, v in self.ev(n.value, st)]

    def ex_Break(self, n, st):
        return [('B', st, None)]

    def ex_Continue(self, n, st):
        return [('C', st, None)]

    def ex_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if v[0] == '!':
                out.append(('X', s, v[1]))
                continue
            sts = [(s, None)]
            for t in n.targets:
                nxt = []
                for s2, err in sts:
                    nxt.extend(self.assign(t, v, s2) if err is None else [(s2, err)])
                sts = nxt
            out.extend(('N', s2, None) if err is None else ('X', s2, err[1]) for s2, err in sts)
        return out

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            return [('N', st, None)]
        out = []
        for s, v in self.ev(n.value, st):
            if v[0] == '!':
                out.append(('X', s, v[1]))
            else:
                out.extend(('N', s2, None) if err is None else ('X', s2, err[1]) for s2, err in self.assign(n.target, v, s))
        return out

    def ex_AugAssign(self, n, st):
        E = _lazy()
        load = _as_load(n.target)
        out = []
        for s, vs in self.ev_list([load, n.value], st):
            if vs and vs[0] == '!':
                out.append(('X', s, vs[1]))
                continue
            a, b = vs
            if a[0] == 'r' and a[1] in s.heap and s.heap[a[1]].kind in ('list', 'set', 'dict'):
                o = s.heap[a[1]]
                name = {('list', ast.Add): 'extend', ('set', ast.BitOr): 'update', ('dict', ast.BitOr): 'update',
                        ('set', ast.Sub): 'difference_update', ('set', ast.BitAnd): 'intersection_update'}.get((o.kind, type(n.op)))
                if name:
                    for s2, v in self.call_hm(s, a, name, (b,), {}, n):
                        if v[0] == '!':
                            out.append(('X', s2, v[1]))
                        elif isinstance(n.target, ast.Name):
                            out.append(('N', s2, None))
                        else:
                            out.extend(('N', s3, None) if err is None else ('X', s3, err[1])
                                       for s3, err in self.assign(n.target, a, s2))
                    continue
            for s2, v in self.binop(s, n.op, a, b, n):
                if v[0] == '!':
                    out.append(('X', s2, v[1]))
                else:
                    out.extend(('N', s3, None) if err is None else ('X', s3, err[1]) for s3, err in self.assign(n.target, v, s2))
        return out

    def assign(self, t, v, st):
        """-> list of (st, None | raise)."""
        E = _lazy()
        if isinstance(t, ast.Name):
            fi = self.stack[-1]
            fid = self.fids[-1]
            if t.id in fi.globals:
                self.world.mutate(self, st, ('mod', fi.mod.name), ('global', t.id), t)
                st.env[('G', fi.mod.name, t.id)] = v
                return [(st, None)]
            if t.id in fi.nonlocals:
                c = st.env.get((fid, '!closure'))
                while c is not None and c[1] is not None:
                    if (c[1], t.id) in st.env:
                        st.env[(c[1], t.id)] = v
                        return [(st, None)]
                    c = st.env.get((c[1], '!closure'))
            st.env[(fid, t.id)] = v
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev_held(t.value, st, v):
                if b[0] == '!':
                    out.append((s, b))
                else:
                    out.extend(self.set_attr(s, b, t.attr, v, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for s, b in self.ev_held(t.value, st, v):
                    if b[0] == '!':
                        out.append((s, b))
                        continue
                    self.world.mutate(self, s, b, ('item', None), t)
                    if b[0] == 'r' and b[1] in s.heap and t.slice.lower is None and t.slice.upper is None:
                        o = E.Obj('list')
                        s.heap[b[1]] = self.extend_obj(s, o, v)
                    out.append((s, None))
                return out
            for s, vs in self.ev_list([t.value, t.slice], st):
                if vs and vs[0] == '!':
                    out.append((s, vs))
                else:
                    out.extend(self.set_item(s, vs[0], vs[1], v, t))
            return out
        raise AnalysisBroken(f'assignment target {type(t).__name__}')

    def set_item(self, st, b, k, v, node):
        E = _lazy()
        self.world.mutate(self, st, b, ('item', k, v), node)
        self.touch(st, b)
        self.writes.add((self.loc(node), '[]'))
        if b[0] == 'r' and b[1] in st.heap:
            o = st.heap[b[1]]
            if o.kind == 'dict':
                if any(isinstance(f, tuple) for f in o.flags):
                    return [self.raise_(st, TypeError, node, 'the attributes of a class are read only')]
                return [(s, None) for s in self.dict_set(st, b, k, v)]
            if o.kind == 'list':
                if o.exact() and k[0] == 'c' and -len(o.strong) <= k[2] < len(o.strong):
                    x = list(o.strong)
                    x[k[2]] = v
                    st.heap[b[1]] = o.copy(strong=tuple(x))
                else:
                    st.heap[b[1]] = o.copy(weak=o.weak | {v})
                return [(st, None)]
            if o.kind == 'inst':
                c, e = self.class_lookup(o.cls, '__setitem__', st)
                if e is not None and e[0] == 'func':
                    return [(s, x if x[0] == '!' else None) for s, x in
                            self.call(st, ('bm', ('fn', e[1].qual, None), b), (k, v), {}, node)]
        return [(st, None)]

    def unpack(self, t, v, st):
        E = _lazy()
        n = len(t.elts)
        star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
        items = None
        if v[0] == 't':
            items = list(v[1])
        elif v[0] == 'r' and v[1] in st.heap:
            o = st.heap[v[1]]
            if o.kind == 'inst' and 'ntuple' in o.flags:
                items = list(o.attrs.values())
            elif o.kind == 'list' and o.exact():
                items = list(o.strong)
        elif v[0] in ('zip', 'enum', 'view'):
            for s, sp in self.iter_space(st, v, t):
                if not isinstance(sp, tuple) and sp.exact:
                    items = sp.items
        if items is not None:
            if star is None:
                if len(items) != n:
                    return [self.raise_(st, ValueError, t, 'unpack')]
                pairs = list(zip(t.elts, items))
            else:
                if len(items) < n - 1:
                    return [self.raise_(st, ValueError, t, 'unpack')]
                after = n - star - 1
                pairs = list(zip(t.elts[:star], items[:star]))
                mid = items[star:len(items) - after]
                pairs.append((t.elts[star], self.alloc(st, E.Obj('list', strong=tuple(mid)), t, 'star')))
                pairs += list(zip(t.elts[star + 1:], items[len(items) - after:]))
        else:
            pairs = []
            for i, x in enumerate(t.elts):
                f = getattr(self.world, 'unpack_elem', None)
                e = f(self, st, v, i, n) if f else None
                if e is None:
                    e = ('s', ('item', v, E.C(i)), 'any') if not E.has_old(v) else E.old('any')
                pairs.append((x, e))
        sts = [(st, None)]
        for x, val in pairs:
            nxt = []
            for s, err in sts:
                nxt.extend(self.assign(x, val, s) if err is None else [(s, err)])
            sts = nxt
        return sts

    def ex_Delete(self, n, st):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, err in cur:
                if err is not None:
                    nxt.append((s, err))
                    continue
                if isinstance(t, ast.Name):
                    s.env.pop((self.fids[-1], t.id), None)
                    nxt.append((s, None))
                elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    for s2, vs in self.ev_list([t.value, t.slice], s):
                        if vs and vs[0] == '!':
                            nxt.append((s2, vs))
                        else:
                            for s3, v in self.call_hm(s2, vs[0], '__delitem__', (vs[1],), {}, t):
                                nxt.append((s3, v if v[0] == '!' else None))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        if b[0] == '!':
                            nxt.append((s2, b))
                            continue
                        self.world.mutate(self, s2, b, ('attr', t.attr), t)
                        if b[0] == 'r' and b[1] in s2.heap:
                            o = s2.heap[b[1]]
                            a = dict(o.attrs)
                            a.pop(t.attr, None)
                            s2.heap[b[1]] = o.copy(attrs=a)
                        nxt.append((s2, None))
                else:
                    nxt.append((s, None))
            cur = nxt
        return [('N', s, None) if e is None else ('X', s, e[1]) for s, e in cur]

    def ex_Assert(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if v[0] == '!':
                out.append(('X', s, v[1]))
                continue
            for s2, t in self.truth(s, v):
                if isinstance(t, tuple):
                    out.append(('X', s2, t[1]))
                elif t:
                    out.append(('N', s2, None))
                else:
                    s3, e = self.raise_(s2, AssertionError, n)
                    out.append(('X', s3, e[1]))
        return out

    def ex_If(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if v[0] == '!':
                out.append(('X', s, v[1]))
                continue
            for s2, t in self.truth(s, v):
                if isinstance(t, tuple):
                    out.append(('X', s2, t[1]))
                    continue
                self.branches.add((self.nkey(n)[:3], t))
                s2.note(f'{self.loc(n)}: if {ast.unparse(n.test)[:60]} -> {t}')
                body = n.body if t else n.orelse
                if body:
                    out.extend(self.exec_block(body, s2))
                else:
                    out.append(('N', s2, None))
        return out

    def ex_For(self, n, st):
        outs = []
        after = []
        brk = []
        for s, it in self.ev(n.iter, st):
            if it[0] == '!':
                outs.append(('X', s, it[1]))
                continue
            for s1, sp in self.iter_space(s, it, n.iter):
                if isinstance(sp, tuple):
                    outs.append(('X', s1, sp[1]))
                    continue

                def body(s2, item):
                    res = []
                    for s3, err in self.assign(n.target, item, s2):
                        if err is not None:
                            res.append(('X', s3, err[1]))
                        else:
                            res.extend(self.exec_block(n.body, s3))
                    return res
                exh, broke, o2 = self.loop(n, s1, sp, body)
                after.extend(exh)
                brk.extend(broke)
                outs.extend(o2)
        if n.orelse:
            for s in after:
                outs.extend(self.exec_block(n.orelse, s))
        else:
            outs.extend(('N', s, None) for s in after)
        outs.extend(('N', s, None) for s in brk)
        return self.dedupe_outs(outs)

    def ex_While(self, n, st):
        outs = []
        seen = set()
        work = [st]
        nk = self.nk(n)
        saved = self.ctx
        rounds = 0
        while work:
            s = work.pop()
            lv = self.liveness()
            if lv is not None and id(n) in lv.head:
                self.drop_dead(s, lv.head[id(n)] | lv.always)
            k = s.key()
            if k in seen:
                continue
            seen.add(k)
            rounds += 1
            self.tick(5)
            mark = saved + ((nk, 'W', len(s.ev), self.world.while_phase(self, s) if hasattr(self.world, 'while_phase') else 0),)
            before = len(s.ev)
            for s1, v in self.ev(n.test, s.copy()):
                if v[0] == '!':
                    outs.append(('X', s1, v[1]))
                    continue
                for s2, t in self.truth(s1, v):
                    if isinstance(t, tuple):
                        outs.append(('X', s2, t[1]))
                    elif not t:
                        outs.extend(self.exec_block(n.orelse, s2) if n.orelse else [('N', s2, None)])
                    else:
                        self.ctx = mark
                        for kind, s3, val in self.exec_block(n.body, s2):
                            if kind in 'NC':
                                if len(s3.ev) == before:
                                    self.age_ctx(s3, mark)
                                work.append(s3)
                            elif kind == 'B':
                                outs.append(('N', s3, None))
                            else:
                                outs.append((kind, s3, val))
                        self.ctx = saved
            if rounds > 400:
                raise AnalysisBroken(f'{self.loc(n)}: while loop does not converge')
        return self.dedupe_outs(outs)

    def ex_Raise(self, n, st):
        E = _lazy()
        if n.exc is None:
            cur = st.env.get((self.fids[-1], '!exc'))
            if cur is None:
                for f in reversed(self.fids):
                    cur = st.env.get((f, '!exc'))
                    if cur is not None:
                        break
            if cur is None or cur == E.NONE:
                s, e = self.raise_(st, RuntimeError, n)
                return [('X', s, e[1])]
            st.note(f'{self.loc(n)}: re-raise')
            return [('X', st, cur)]
        out = []
        for s, v in self.ev(n.exc, st):
            if v[0] == '!':
                out.append(('X', s, v[1]))
                continue
            isclass = v[0] == 'cls' or (v[0] == 'H' and isinstance(v[1].obj, type)) or \
                (v[0] == 'r' and v[1] in s.heap and s.heap[v[1]].kind == 'class')
            if isclass:
                for s2, x in self.call(s, v, (), {}, n):
                    s2.note(f'{self.loc(n)}: raise {ast.unparse(n.exc)[:60]}')
                    out.append(('X', s2, x[1] if x[0] == '!' else x))
            else:
                s.note(f'{self.loc(n)}: raise {ast.unparse(n.exc)[:60]}')
                out.append(('X', s, v))
        return out

    def ex_Try(self, n, st):
        E = _lazy()
        outs = []
        for kind, s, val in self.exec_block(n.body, st):
            if kind == 'X':
                outs.extend(self.handlers(n, s, val))
            elif kind == 'N' and n.orelse:
                outs.extend(self.exec_block(n.orelse, s))
            else:
                outs.append((kind, s, val))
        outs = self.dedupe_outs(outs)
        if not n.finalbody:
            return outs
        res = []
        for kind, s, val in outs:
            tmp = None
            if val is not None:
                tmp = ('FV', self.ctxid(), n.lineno)
                s.env[tmp] = val
            for k2, s2, v2 in self.exec_block(n.finalbody, s):
                v = s2.env.pop(tmp, val) if tmp is not None else val
                if k2 == 'N':
                    res.append((kind, s2, v))
                else:
                    res.append((k2, s2, v2))
        return self.dedupe_outs(res)

    ex_TryStar = ex_Try

    def handlers(self, n, st, exc):
        E = _lazy()
        outs = []
        pend = [st]
        for h in n.handlers:
            nxt = []
            for s in pend:
                if h.type is None:
                    res = [(s, True)]
                else:
                    res = []
                    for s1, cv in self.ev(h.type, s):
                        if cv[0] == '!':
                            outs.append(('X', s1, cv[1]))
                            continue
                        res.extend(self.exc_matches(s1, exc, cv))
                for s1, b in res:
                    if isinstance(b, tuple):
                        outs.append(('X', s1, b[1]))
                    elif b:
                        fid = self.fids[-1]
                        prev = s1.env.get((fid, '!exc'))
                        s1.env[(fid, '!exc')] = exc
                        lv = self.liveness()
                        if lv is not None and id(h) in lv.handler:
                            self.drop_dead(s1, lv.handler[id(h)] | lv.always)
                        if h.name:
                            s1.env[(fid, h.name)] = exc
                        if hasattr(self.world, 'caught'):
                            self.world.caught(self, s1, exc, h)
                        s1.note(f'{self.loc(h)}: except {ast.unparse(h.type)[:50] if h.type else ""}')
                        for kind, s2, val in self.exec_block(h.body, s1):
                            if h.name:
                                s2.env.pop((fid, h.name), None)
                            if prev is None:
                                s2.env.pop((fid, '!exc'), None)
                            else:
                                s2.env[(fid, '!exc')] = prev
                            outs.append((kind, s2, val))
                    else:
                        nxt.append(s1)
            pend = nxt
        outs.extend(('X', s, exc) for s in pend)
        return outs

    def ex_With(self, n, st):
        return self._with(n, n.items, st)

    ex_AsyncWith = ex_With

    def _with(self, n, items, st):
        E = _lazy()
        if not items:
            return self.exec_block(n.body, st)
        it, rest = items[0], items[1:]
        outs = []
        for s, cm in self.ev(it.context_expr, st):
            if cm[0] == '!':
                outs.append(('X', s, cm[1]))
                continue

            def run_body(s2, v):
                if it.optional_vars is not None:
                    res = []
                    for s3, err in self.assign(it.optional_vars, v, s2):
                        if err is not None:
                            res.append(('X', s3, err[1]))
                        else:
                            res.extend(self._with(n, rest, s3))
                    return res
                return self._with(n, rest, s2)
            if cm[0] == 'gcm':
                outs.extend(self._with_gcm(n, s, cm, run_body))
            elif cm[0] == 'suppress':
                for kind, s2, val in run_body(s, E.NONE):
                    if kind == 'X':
                        for s3, b in self.exc_matches(s2, val, ('t', cm[1])):
                            outs.append(('N', s3, None) if b is True else ('X', s3, val))
                    else:
                        outs.append((kind, s2, val))
            elif cm[0] == 'nullcm':
                outs.extend(run_body(s, cm[1]))
            elif cm[0] == 'r' and cm[1] in s.heap and s.heap[cm[1]].kind == 'inst' and s.heap[cm[1]].cls[0] == 'cls':
                for s1, m in self.get_attr(s, cm, '__enter__', n):
                    if m[0] == '!':
                        outs.append(('X', s1, m[1]))
                        continue
                    for s2, v in self.call(s1, m, (), {}, n):
                        if v[0] == '!':
                            outs.append(('X', s2, v[1]))
                            continue
                        s2.env[('CM', self.ctxid(), n.lineno)] = cm
                        for kind, s3, val in run_body(s2, v):
                            outs.extend(self._cm_exit(n, s3, cm, kind, val))
            elif cm[0] == 'r' and cm[1] in s.heap and s.heap[cm[1]].kind == 'exitstack':
                outs.extend(self._with_exitstack(n, s, cm, run_body))
            else:
                outs.extend(run_body(s, E.old('any')))
        return self.dedupe_outs(outs)

    def _with_exitstack(self, n, st, cm, run_body):
        outs = []
        for kind, s, val in run_body(st, cm):
            outs.extend(self.unwind_stack(n, s, cm, kind, val))
        return outs

    def unwind_stack(self, n, st, cm, kind, val):
        """Run what was put on an ExitStack, last first; kind and val: how its block ends."""
        E = _lazy()
        cbs = st.heap[cm[1]].strong if cm[1] in st.heap else ()
        cur = [(kind, st, val)]
        for cb in reversed(cbs):
            nxt = []
            for k, s1, v in cur:
                if cb[0] == 'cb':
                    for s2, r in self.call(s1, cb[1], cb[2], dict(cb[3]), n):
                        nxt.append(('X', s2, r[1]) if r[0] == '!' else (k, s2, v))
                elif cb[0] == 'exit':
                    nxt.extend(self._cm_exit(n, s1, cb[1], k, v))
                else:
                    nxt.extend(self._gcm_exit(n, s1, cb, k, v))
            cur = nxt
        return [(k, self._stack_emptied(s, cm), v) for k, s, v in cur]

    def _stack_emptied(self, st, cm):
        if cm[1] in st.heap:
            st.heap[cm[1]] = st.heap[cm[1]].copy(strong=())
        return st

    def _cm_exit(self, n, st, cm, kind, val):
        E = _lazy()
        outs = []
        args = (E.NONE,) * 3
        if kind == 'X':
            args = (st.heap[val[1]].cls if val[0] == 'r' and val[1] in st.heap else E.old('any'), val, E.old('any'))
        for s4, m2 in self.get_attr(st, cm, '__exit__', n):
            for s5, r in self.call(s4, m2, args, {}, n):
                if r[0] == '!':
                    outs.append(('X', s5, r[1]))
                elif kind == 'X':
                    for s6, t in self.truth(s5, r):
                        outs.append(('N', s6, None) if t is True else ('X', s6, val))
                else:
                    outs.append((kind, s5, val))
        return outs

    def stack_enter(self, st, ref, cm, node):
        """ExitStack.enter_context."""
        E = _lazy()
        if cm[0] == 'nullcm':
            return [(st, cm[1])]
        if cm[0] == 'r' and cm[1] in st.heap and st.heap[cm[1]].kind == 'inst':
            out = []
            for s1, m in self.get_attr(st, cm, '__enter__', node):
                for s2, v in (self.call(s1, m, (), {}, node) if m[0] != '!' else [(s1, m)]):
                    if v[0] != '!':
                        o = s2.heap[ref[1]]
                        s2.heap[ref[1]] = o.copy(strong=o.strong + (('exit', cm),))
                    out.append((s2, v))
            return out
        if cm[0] == 'gcm':
            fv, args, kwargs = cm[1], cm[2], dict(cm[3])
            fi = self.repo.funcs[fv[1]]
            parts = _gcm_parts(fi.node)
            if parts is not None:
                return self._gcm_enter(st, ref, fv, fi, parts, args, kwargs, node)
        self.unknown[('exitstack', 'enter_context')] += 1
        return [(st, E.old('any'))]

    def _gcm_enter(self, st, ref, fv, fi, parts, args, kwargs, node):
        E = _lazy()
        self.fn_seen[fi.qual] += 1
        outer = (self.ctx, self.stack, self.fids)
        depth = len(st.heap[ref[1]].strong)
        inner = self.ctx + (('call', self.nk(node), (fi.qual, depth)),)
        self.ctx = inner
        fid = self.ctxid()
        self.ctx = outer[0]
        out = []
        for s, err in self.bind(st, fi, fid, args, kwargs, fv[2], node):
            if err is not None:
                out.append((s, err))
                continue
            self.ctx, self.stack, self.fids = inner, outer[1] + [fi], outer[2] + [fid]
            try:
                for kind, s2, val in self.exec_block(parts[0], s):
                    if kind == 'X':
                        out.append((s2, ('!', val)))
                        continue
                    for s3, v in (self.ev(parts[1], s2) if parts[1] is not None else [(s2, E.NONE)]):
                        if v[0] != '!':
                            o = s3.heap[ref[1]]
                            s3.heap[ref[1]] = o.copy(strong=o.strong + (('gcm', inner, fid, fi.qual),))
                        out.append((s3, v))
            finally:
                self.ctx, self.stack, self.fids = outer
        return out

    def _gcm_exit(self, n, st, cb, kind, val):
        _, inner, fid, qual = cb
        fi = self.repo.funcs[qual]
        _, _, always, normal = _gcm_parts(fi.node)
        outer = (self.ctx, self.stack, self.fids)
        self.ctx, self.stack, self.fids = inner, outer[1] + [fi], outer[2] + [fid]
        outs = []
        try:
            block = always if kind == 'X' else always + normal
            for k, s, v in (self.exec_block(block, st) if block else [('N', st, None)]):
                if not fi.has_inner:
                    for key in [key for key in s.env if key[0] == fid]:
                        del s.env[key]
                outs.append((k, s, v) if k == 'X' else (kind, s, val))
        finally:
            self.ctx, self.stack, self.fids = outer
        return outs

    def _with_gcm(self, n, st, cm, run_body):
        """with over a @contextmanager generator: the body runs at its yield."""
        E = _lazy()
        fv, args, kwargs = cm[1], cm[2], dict(cm[3])
        fi = self.repo.funcs[fv[1]]
        self.fn_seen[fi.qual] += 1
        outer = (self.ctx, self.stack, self.fids)
        inner_ctx = self.ctx + (('call', self.nk(n), fi.qual),)
        self.ctx = inner_ctx
        fid = self.ctxid()
        inner = (inner_ctx, self.stack + [fi], self.fids + [fid])
        pend_key = ('PEND', fid)

        def cb(s, v):
            self.ctx, self.stack, self.fids = outer
            try:
                res = []
                for kind, s2, val in run_body(s, v):
                    if kind == 'X':
                        res.append((s2, ('!', val)))
                    else:
                        if kind != 'N':
                            s2.env[pend_key] = ('K', kind, val if val is not None else E.NONE)
                        res.append((s2, E.NONE))
                return res
            finally:
                self.ctx, self.stack, self.fids = inner
        outs = []
        old_cb = self.yields.get(fid)
        self.yields[fid] = cb
        self.ctx, self.stack, self.fids = inner
        try:
            for s, err in self.bind(st, fi, fid, args, kwargs, fv[2], n):
                if err is not None:
                    outs.append(('X', s, err[1]))
                    continue
                if fi.cls is not None and args:
                    s.env[(fid, '!self')] = args[0]
                for kind, s2, val in self.exec_block(fi.node.body, s):
                    p = s2.env.pop(pend_key, None)
                    if not fi.has_inner:
                        for k in [k for k in s2.env if k[0] == fid]:
                            del s2.env[k]
                    if kind == 'X':
                        outs.append(('X', s2, val))
                    elif p is not None:
                        outs.append((p[1], s2, p[2]))
                    else:
                        outs.append(('N', s2, None))
        finally:
            self.ctx, self.stack, self.fids = outer
            if old_cb is None:
                self.yields.pop(fid, None)
            else:
                self.yields[fid] = old_cb
        return outs

    def ex_FunctionDef(self, n, st):
        fi = self.repo.inner_func(n, self.stack[-1])
        fv = ('fn', fi.qual, self.fids[-1])
        sts = [(st, fv)]
        for d in reversed(fi.decos):
            nxt = []
            for s, x in sts:
                for s2, dv in self.ev(d, s):
                    nxt.extend(self.call(s2, dv, (x,), {}, d))
            sts = nxt
        out = []
        for s, x in sts:
            if x[0] == '!':
                out.append(('X', s, x[1]))
            else:
                s.env[(self.fids[-1], n.name)] = x
                out.append(('N', s, None))
        return out

    def ex_ClassDef(self, n, st):
        st.env[(self.fids[-1], n.name)] = _lazy().S(('localclass', n.name))
        return [('N', st, None)]

    def ex_Import(self, n, st):
        E = _lazy()
        for a in n.names:
            full = a.name
            name = a.asname or full.split('.')[0]
            target = full if a.asname else full.split('.')[0]
            if target in self.repo.modules:
                v = ('mod', target)
            else:
                m = host_import(target)
                v = E.H(m) if m is not None else E.S(('module', target))
            st.env[(self.fids[-1], name)] = v
        return [('N', st, None)]

    def ex_ImportFrom(self, n, st):
        E = _lazy()
        src = self.repo.abs_module(self.stack[-1].mod, n)
        cur = [st]
        for a in n.names:
            nxt = []
            for s in cur:
                if src in self.repo.modules:
                    if f'{src}.{a.name}' in self.repo.modules and self.repo.find_global(src, a.name) is None:
                        res = [(s, ('mod', f'{src}.{a.name}'))]
                    else:
                        res = self.global_value(s, src, a.name, n)
                else:
                    m = host_import(src)
                    x = getattr(m, a.name, None) if m is not None else None
                    res = [(s, self.wrap_host(s, x, n) if x is not None else E.S(('import', src, a.name)))]
                for s2, v in res:
                    s2.env[(self.fids[-1], a.asname or a.name)] = v
                    nxt.append(s2)
            cur = nxt
        return [('N', s, None) for s in cur]

    def ex_Match(self, n, st):
        """match statements over constants, classes, or-patterns, captures and wildcards."""
        outs = []
        for s, subj in self.ev(n.subject, st):
            if subj[0] == '!':
                outs.append(('X', s, subj[1]))
                continue
            pend = [s]
            for case in n.cases:
                nxt = []
                for s1 in pend:
                    for s2, b in self.match_pattern(case.pattern, subj, s1):
                        if isinstance(b, tuple):
                            outs.append(('X', s2, b[1]))
                            continue
                        if not b:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for s3, v in self.ev(case.guard, s2):
                                if v[0] == '!':
                                    outs.append(('X', s3, v[1]))
                                    continue
                                for s4, t in self.truth(s3, v):
                                    if t is True:
                                        outs.extend(self.exec_block(case.body, s4))
                                    else:
                                        nxt.append(s4)
                        else:
                            outs.extend(self.exec_block(case.body, s2))
                pend = nxt
            outs.extend(('N', s1, None) for s1 in pend)
        return outs

    def match_pattern(self, p, v, st):
        E = _lazy()
        if isinstance(p, ast.MatchValue):
            out = []
            for s, x in self.ev(p.value, st):
                out.extend(self.eq(s, v, x))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.is_(st, v, E.C(p.value))
        if isinstance(p, ast.MatchOr):
            sts = [(st, False)]
            for q in p.patterns:
                nxt = []
                for s, b in sts:
                    nxt.extend(self.match_pattern(q, v, s) if b is False else [(s, b)])
                sts = nxt
            return sts
        if isinstance(p, ast.MatchAs):
            res = [(st, True)] if p.pattern is None else self.match_pattern(p.pattern, v, st)
            if p.name:
                for s, b in res:
                    if b is True:
                        s.env[(self.fids[-1], p.name)] = v
            return res
        if isinstance(p, ast.MatchClass) and not p.kwd_patterns and not p.patterns:
            out = []
            for s, c in self.ev(p.cls, st):
                out.extend(self.isinstance_(s, v, c))
            return out
        self.unknown[('match', type(p).__name__)] += 1
        return [(st.copy(), True), (st, False)]


E_METHODS = frozenset({'append', 'extend', 'items', 'keys', 'values', 'get', 'pop', 'copy', 'update', 'clear',
                       'remove', 'insert', 'setdefault', 'popitem', 'add', 'discard', 'sort', 'reverse',
                       'join', 'format', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'split'})


class NotHost(Exception):
    pass


def dedupe(vs):
    out = []
    for v in vs:
        if v not in out:
            out.append(v)
    return tuple(out)


def put(o, k, v):
    E = _lazy()
    if E.has_old(k):
        return o.copy(weak=o.weak | {(k, v)}, ne=True)
    strong = tuple((a, v if a == k else b) for a, b in o.strong)
    if not any(a == k for a, _ in o.strong):
        strong = strong + ((k, v),)
    return o.copy(strong=strong, opt=tuple((a, b) for a, b in o.opt if a != k), removed=o.removed - {k})


def _as_load(t):
    import copy
    x = copy.copy(t)
    x.ctx = ast.Load()
    return x


def is_pure(obj):
    import typing
    if obj in (typing.get_origin, typing.get_args, typing.get_type_hints, getattr(typing, 'is_typeddict', None)):
        return True
    mod = getattr(obj, '__module__', None)
    if mod == 'typing':
        return True
    if mod == 'typing_extensions' and getattr(obj, '__name__', '') in ('get_origin', 'get_args', 'get_type_hints', 'is_typeddict',
                                                                      'get_original_bases'):
        return True
    return obj in (len, repr, str, int, float, bool, abs, hash, ord, chr, tuple, frozenset, min, max, sum, round)


def _gcm_parts(node):
    """(statements before the yield, what it yields, statements run on every exit, statements run on a normal exit) of a
    generator function `pre; [try:] yield x [finally: post]; after`; None for another shape."""
    body = list(node.body)

    def has_yield(x):
        return any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x))
    at = [k for k, x in enumerate(body) if has_yield(x)]
    if len(at) != 1:
        return None
    pre, y, after = body[:at[0]], body[at[0]], body[at[0] + 1:]
    if isinstance(y, ast.Expr) and isinstance(y.value, ast.Yield):
        return pre, y.value.value, [], after
    if isinstance(y, ast.Try) and not y.handlers and not any(has_yield(x) for x in y.finalbody):
        at = [k for k, x in enumerate(y.body) if has_yield(x)]
        if at == [0] and isinstance(y.body[0], ast.Expr) and isinstance(y.body[0].value, ast.Yield) and len(y.body) == 1 and not y.orelse:
            return pre, y.body[0].value.value, y.finalbody, after
    return None
