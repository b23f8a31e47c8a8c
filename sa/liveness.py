"""Live local names after each statement of a function (backward dataflow)."""
import ast

_FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
E = frozenset()


def _uses(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
            out.add(n.id)
    return out


def _target_uses(t):
    """Names read by an assignment target (subscripts, attributes)."""
    if isinstance(t, ast.Name):
        return set()
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[_target_uses(x) for x in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return _target_uses(t.value)
    return _uses(t)


def _target_defs(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[_target_defs(x) for x in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return _target_defs(t.value)
    return set()


class Liveness:
    """live[id(stmt)]: names that may be read after stmt completes normally.

    head[id(loop)]: names that may be read at the loop head.
    handler[id(handler)]: names that may be read when the handler starts.
    """

    def __init__(self, fi):
        self.live = {}
        self.head = {}
        self.handler = {}
        self.always = set()      # names seen by nested functions
        self.final = {}
        body = fi.node.body
        if not isinstance(body, list):
            self.always = None
            return
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, _FUNCS):
                for m in ast.walk(n):
                    if isinstance(m, ast.Name):
                        self.always.add(m.id)
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars', 'exec', 'eval'):
                if not n.args:
                    self.always = None
                    return
            stack.extend(ast.iter_child_nodes(n))
        self.block(body, E, E, E, E, E)

    def block(self, stmts, out, exc, brk, cont, ret):
        live = out
        for s in reversed(stmts):
            self.live[id(s)] = self.live.get(id(s), E) | live
            live = self.stmt(s, live, exc, brk, cont, ret)
        return live

    def stmt(self, s, out, exc, brk, cont, ret):
        t = type(s)
        if t is ast.Return:
            return frozenset((_uses(s.value) if s.value else set()) | ret | exc)
        if t is ast.Raise:
            return frozenset(_uses(s) | exc)
        if t is ast.Break:
            return brk
        if t is ast.Continue:
            return cont
        if t is ast.If:
            return frozenset(_uses(s.test)) | self.block(s.body, out, exc, brk, cont, ret) | \
                self.block(s.orelse, out, exc, brk, cont, ret) | exc
        if t in (ast.For, ast.AsyncFor):
            after = self.block(s.orelse, out, exc, brk, cont, ret) if s.orelse else out
            head = after
            defs = _target_defs(s.target)
            tu = _target_uses(s.target)
            while True:
                b = self.block(s.body, head, exc, out, head, ret)
                n = head | (b - defs) | tu | exc
                if n == head:
                    break
                head = n
            self.head[id(s)] = head
            return head | frozenset(_uses(s.iter))
        if t is ast.While:
            after = self.block(s.orelse, out, exc, brk, cont, ret) if s.orelse else out
            head = after | frozenset(_uses(s.test)) | exc
            while True:
                n = head | self.block(s.body, head, exc, out, head, ret)
                if n == head:
                    break
                head = n
            self.head[id(s)] = head
            return head
        if t in (ast.Try, getattr(ast, 'TryStar', ast.Try)):
            if s.finalbody:
                fin = self.block(s.finalbody, out | exc | brk | cont | ret, exc, brk, cont, ret)
                fexc = self.block(s.finalbody, exc | ret | out, exc, brk, cont, ret)
                out2, exc2, brk2, cont2, ret2 = fin, fexc | exc, fin, fin, fin
            else:
                out2, exc2, brk2, cont2, ret2 = out, exc, brk, cont, ret
            hs = exc2
            for h in s.handlers:
                b = self.block(h.body, out2, exc2, brk2, cont2, ret2)
                if h.name:
                    b = b - {h.name}
                b = b | (frozenset(_uses(h.type)) if h.type else E) | exc2
                self.handler[id(h)] = b
                hs = hs | b
            o = self.block(s.orelse, out2, exc2, brk2, cont2, ret2) if s.orelse else out2
            return self.block(s.body, o, hs, brk2, cont2, ret2) | hs
        if t in (ast.With, ast.AsyncWith):
            uses, defs = set(), set()
            for i in s.items:
                uses |= _uses(i.context_expr)
                if i.optional_vars is not None:
                    defs |= _target_defs(i.optional_vars)
                    uses |= _target_uses(i.optional_vars)
            # a context manager may swallow an exception
            b = self.block(s.body, out, exc | out, brk, cont, ret)
            return frozenset(uses) | (b - defs) | exc | out
        if t is ast.Match:
            live = frozenset(_uses(s.subject)) | out | exc
            for c in s.cases:
                live |= self.block(c.body, out, exc, brk, cont, ret)
                live |= frozenset(_uses(c.pattern) | (_uses(c.guard) if c.guard else set()))
            return live
        uses, defs = set(), set()
        if t is ast.Assign:
            uses |= _uses(s.value)
            for x in s.targets:
                defs |= _target_defs(x)
                uses |= _target_uses(x)
        elif t is ast.AnnAssign:
            if s.value is not None:
                uses |= _uses(s.value)
                defs |= _target_defs(s.target)
            uses |= _target_uses(s.target)
        elif t is ast.AugAssign:
            uses |= _uses(s.value) | _target_uses(s.target) | _target_defs(s.target)
        elif t in _FUNCS:
            uses |= _uses(s)
        else:
            uses |= _uses(s)
        return frozenset(uses) | (out - defs) | exc
