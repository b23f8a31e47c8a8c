"""Resolved view of the analysed package: modules, classes, functions, names.

Nothing here imports or runs the analysed package; only the Python standard
library objects it names (``collections.abc.Mapping`` ...) are looked up.
"""
import ast
import importlib
import os


class AnalysisBroken(Exception):
    """The analysed tree no longer contains something the rules need."""


class FuncInfo:
    __slots__ = ('qual', 'node', 'mod', 'cls', 'kind', 'is_gen', 'is_cm', 'decos',
                 'parent', 'has_inner', 'nonlocals', 'globals', 'name', 'locals', 'params')

    def __init__(self, qual, node, mod, cls, parent=None):
        self.qual = qual
        self.node = node
        self.mod = mod
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, 'name', '<lambda>')
        self.kind = 'plain'
        self.is_cm = False
        self.decos = []
        self.is_gen = False
        self.has_inner = False
        self.nonlocals = set()
        self.globals = set()
        self.locals = set()
        a = node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        body = node.body if isinstance(node.body, list) else [node.body]
        self._scan(body)
        if self.name in ('__init_subclass__', '__class_getitem__'):
            self.kind = 'class'
        if self.name == '__new__':
            self.kind = 'static'

    def _scan(self, body):
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                self.has_inner = True
                if hasattr(n, 'name'):
                    self.locals.add(n.name)
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            if isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                pass
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    __slots__ = ('qual', 'name', 'node', 'mod', 'attrs', 'order', 'meta')

    def __init__(self, qual, node, mod):
        self.qual = qual
        self.name = node.name
        self.node = node
        self.mod = mod
        self.attrs = {}
        self.order = []
        self.meta = None


class Module:
    __slots__ = ('name', 'path', 'rel', 'tree', 'defs', 'stars', 'is_pkg')

    def __init__(self, name, path, rel, tree, is_pkg):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.defs = {}
        self.stars = []
        self.is_pkg = is_pkg


def _is_type_checking(test):
    return (isinstance(test, ast.Name) and test.id == 'TYPE_CHECKING') or \
           (isinstance(test, ast.Attribute) and test.attr == 'TYPE_CHECKING')


class Repo:
    def __init__(self, root, package='oblate'):
        self.root = root
        self.package = package
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.lambdas = {}
        self._mro = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f'no package directory {base}')
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisBroken(f'{rel}: {e}')
                self.modules['.'.join(parts)] = Module('.'.join(parts), path, rel, tree, is_pkg)
        for m in self.modules.values():
            self._scan_block(m, m.tree.body)

    # -- scanning -----------------------------------------------------------
    def _scan_block(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._func(n, m, None, f'{m.name}:{n.name}')
                m.defs[n.name] = ('func', fi)
            elif isinstance(n, ast.ClassDef):
                m.defs[n.name] = ('class', self._class(n, m, f'{m.name}:{n.name}'))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self._targets(m, t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self._targets(m, n.target, n.value)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.defs[a.asname] = ('import', a.name, None)
                    else:
                        m.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0], None)
            elif isinstance(n, ast.ImportFrom):
                src = self.abs_module(m, n)
                for a in n.names:
                    if a.name == '*':
                        m.stars.append(src)
                    else:
                        m.defs[a.asname or a.name] = ('import', src, a.name)
            elif isinstance(n, ast.If):
                if _is_type_checking(n.test):
                    self._scan_block(m, n.orelse)
                else:
                    self._scan_block(m, n.body)
                    self._scan_block(m, n.orelse)
            elif isinstance(n, ast.Try):
                self._scan_block(m, n.body)
                self._scan_block(m, n.orelse)
                self._scan_block(m, n.finalbody)
            elif isinstance(n, ast.With):
                self._scan_block(m, n.body)

    def _targets(self, m, t, value):
        if isinstance(t, ast.Name):
            m.defs[t.id] = ('expr', value)
        elif isinstance(t, ast.Tuple) and isinstance(value, ast.Tuple) and len(t.elts) == len(value.elts):
            for a, b in zip(t.elts, value.elts):
                self._targets(m, a, b)

    def abs_module(self, m, n):
        if not n.level:
            return n.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        if n.module:
            parts.append(n.module)
        return '.'.join(parts)

    def _func(self, n, m, cls, qual, parent=None):
        fi = FuncInfo(qual, n, m, cls, parent)
        for d in n.decorator_list:
            nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if nm == 'staticmethod':
                fi.kind = 'static'
            elif nm == 'classmethod':
                fi.kind = 'class'
            elif nm in ('property', 'cached_property'):
                fi.kind = 'property'
            elif nm == 'contextmanager':
                fi.is_cm = True
            elif nm in ('overload', 'abstractmethod', 'final', 'override', 'wraps', 'deprecated'):
                if nm == 'overload':
                    fi.kind = 'overload'
            else:
                fi.decos.append(d)
        self.funcs[qual] = fi
        return fi

    def _class(self, n, m, qual):
        ci = ClassInfo(qual, n, m)
        self.classes[qual] = ci
        for k in n.keywords:
            if k.arg == 'metaclass':
                ci.meta = k.value
        self._class_body(ci, n.body, m, qual)
        return ci

    def _class_body(self, ci, body, m, qual):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f'{qual}.{s.name}'
                k = 1
                while q in self.funcs:
                    k += 1
                    q = f'{qual}.{s.name}#{k}'
                fi = self._func(s, m, qual, q)
                if fi.kind == 'overload':
                    continue
                # "@x.setter": accessor function of a descriptor named x
                setter = None
                for d in fi.decos:
                    if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter', 'getter') and isinstance(d.value, ast.Name):
                        setter = (d.value.id, d.attr)
                if setter:
                    ci.attrs.setdefault('!accessors', []).append((setter[0], setter[1], fi))
                    if s.name != setter[0]:
                        ci.attrs[s.name] = ('accessor', fi)
                    continue
                ci.attrs[s.name] = ('func', fi)
                ci.order.append(s.name)
            elif isinstance(s, ast.ClassDef):
                ci.attrs[s.name] = ('class', self._class(s, m, f'{qual}.{s.name}'))
                ci.order.append(s.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = ('expr', s.value)
                        ci.order.append(t.id)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                ci.attrs[a.id] = ('expr', b)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    ci.attrs[s.target.id] = ('expr', s.value)
                    ci.order.append(s.target.id)
            elif isinstance(s, ast.If) and not _is_type_checking(s.test):
                self._class_body(ci, s.body, m, qual)
                self._class_body(ci, s.orelse, m, qual)

    def inner_func(self, node, outer):
        """FuncInfo of a nested def or lambda, by its outer FuncInfo."""
        key = id(node)
        fi = self.lambdas.get(key)
        if fi is None:
            name = getattr(node, 'name', f'<lambda:{node.lineno}:{node.col_offset}>')
            q = f'{outer.qual}.<locals>.{name}'
            if isinstance(node, ast.Lambda):
                fi = FuncInfo(q, node, outer.mod, outer.cls, outer)
            else:
                fi = self._func(node, outer.mod, outer.cls, q, outer)
                fi.kind = 'plain'
            self.funcs.setdefault(q, fi)
            if self.funcs[q] is not fi:
                fi.qual = f'{q}@{node.lineno}'
                self.funcs[fi.qual] = fi
            self.lambdas[key] = fi
        return fi

    # -- name resolution ----------------------------------------------------
    def find_global(self, modname, name, _seen=None):
        """-> (kind, ...) entry of a module level name, following star imports."""
        m = self.modules.get(modname)
        if m is None:
            return None
        e = m.defs.get(name)
        if e is not None:
            return e
        seen = _seen or set()
        if modname in seen:
            return None
        seen.add(modname)
        for s in m.stars:
            if s in self.modules:
                r = self.find_global(s, name, seen)
                if r is not None and r[0] != 'import':
                    return ('import', s, name)
                if r is not None:
                    return r
        if f'{modname}.{name}' in self.modules:
            return ('import', f'{modname}.{name}', None)
        return None

    def require_class(self, modname, name):
        e = self.find_global(modname, name)
        n = 0
        while e is not None and e[0] == 'import' and n < 10:
            e = self.find_global(e[1], e[2]) if e[2] else None
            n += 1
        if e is None or e[0] != 'class':
            raise AnalysisBroken(f'class {modname}.{name} not found')
        return e[1].qual

    def require_func(self, modname, name):
        e = self.find_global(modname, name)
        if e is None or e[0] != 'func':
            raise AnalysisBroken(f'function {modname}.{name} not found')
        return e[1].qual


def host_import(name):
    if name == 'typing_extensions':
        name = 'typing'
    try:
        return importlib.import_module(name)
    except Exception:
        return None
