"""Systematic small changes to the package, and which of them no check reports (development only).

python3 tools/mutate.py gen            write /tmp/mut/list.json: the changes that pass the repository's tests
python3 tools/mutate.py run [lo hi]    run all checks on them, cheap analyses first, stopping at the first report
"""
import ast
import copy
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = '/tmp/mut'
FILES = ['configs.py', 'contexts.py', 'exceptions.py', 'schema.py', 'type_validation.py', 'utils.py', 'validate.py',
         'fields/base.py', 'fields/nesting.py', 'fields/primitive.py', 'fields/structs.py', 'fields/typings.py']


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for ln in src.encode().split(b'\n'):
        offs.append(offs[-1] + len(ln) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new):
        i, j = span(n)
        return (raw[:i] + new.encode() + raw[j:]).decode()

    def text(n):
        i, j = span(n)
        return raw[i:j].decode()
    CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
           ast.In: 'not in', ast.NotIn: 'in'}
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == 'TYPE_CHECKING':
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in [n.returns] + [a.annotation for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs]:
                if x:
                    skip |= {id(y) for y in ast.walk(x)}
            if any('overload' in ast.dump(d) for d in n.decorator_list):
                skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(y) for y in ast.walk(n.annotation)}
    infn = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            infn |= {id(x) for s in f.body for x in ast.walk(s)}
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, 'lineno') or id(n) not in infn:
            continue

        def add(what, new):
            out.append((n.lineno, what, new))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            add('delete ' + text(n)[:50], rep(n, 'pass'))
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add('return None', rep(n, 'return None'))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add('negate ' + text(n.test)[:50], rep(n.test, f'(not ({text(n.test)}))'))
            add('true ' + text(n.test)[:50], rep(n.test, 'True'))
            add('false ' + text(n.test)[:50], rep(n.test, 'False'))
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) for k, v in enumerate(n.values) if k != i]
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                add('drop ' + text(n.values[i])[:50], rep(n, '(' + op.join(rest) + ')'))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            add('compare ' + text(n)[:50], rep(n, f'({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})'))
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                add('truth ' + text(n)[:50], rep(n, ('not ' if isinstance(n.ops[0], ast.Is) else 'bool') + f'({text(n.left)})'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(f'constant {n.value}', rep(n, str(not n.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(f'constant {n.value}', rep(n, str(n.value + 1)))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                m = text(n).replace(text(k), '', 1) if k.arg else None
                if m:
                    import re
                    m = re.sub(r',\s*,', ',', m)
                    m = re.sub(r'\(\s*,', '(', m)
                    add(f'drop argument {k.arg} of {text(n.func)}', rep(n, m))
            if len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = span(n.args[0]), span(n.args[1])
                new = (raw[:a[0]] + raw[b[0]:b[1]] + raw[a[1]:b[0]] + raw[a[0]:a[1]] + raw[b[1]:]).decode()
                add(f'swap arguments of {text(n.func)}', new)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                add('no copy ' + text(n), rep(n, text(n.func.value)))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    add('except without ' + text(n.type.elts[i]),
                        rep(n.type, '(' + ', '.join(text(x) for k, x in enumerate(n.type.elts) if k != i) + ',)'))
            add('except everything', rep(n.type, 'Exception'))
        elif isinstance(n, (ast.Break, ast.Continue)):
            add('loop jump', rep(n, 'break' if isinstance(n, ast.Continue) else 'continue'))
        elif isinstance(n, ast.Try) and n.finalbody:
            i, j = span(n.finalbody[0])[0], span(n.finalbody[-1])[1]
            add('no finally', (raw[:i] + b'pass' + raw[j:]).decode())
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            swap = {'load_key': '_name', '_name': 'load_key', 'dump_key': 'load_key', '__fields__': '__load_fields__', '__load_fields__': '__fields__',
                    'intersection': 'union', 'difference': 'intersection', 'append': 'remove', '_raw_validators': '_validators', '_validators': '_raw_validators'}
            if n.attr in swap:
                add(f'attribute {text(n)[-40:]}', rep(n, text(n.value) + '.' + swap[n.attr]))
    return out


def tree(d):
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for x in ('oblate', 'tests', 'pytest.ini', 'setup.py', 'README.md', 'requirements.txt'):
        s = f'/repo/{x}'
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, f'{d}/{x}')


def tested(arg):
    i, f, line, what, new = arg
    d = f'{TMP}/w{os.getpid()}'
    if not os.path.exists(d):
        tree(d)
    p = f'{d}/oblate/{f}'
    old = open(f'/repo/oblate/{f}').read()
    try:
        compile(new, f, 'exec')
    except SyntaxError:
        return i, False
    open(p, 'w').write(new)
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d,
                           capture_output=True, text=True, timeout=60, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'))
        ok = r.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    open(p, 'w').write(old)
    return i, ok


def gen():
    os.makedirs(TMP, exist_ok=True)
    todo, seen = [], set()
    for f in FILES:
        for line, what, new in mutants(open(f'/repo/oblate/{f}').read()):
            if (f, new) not in seen:
                seen.add((f, new))
                todo.append((len(todo), f, line, what, new))
    print(len(todo), 'changes')
    with mp.Pool(6) as pool:
        ok = dict(pool.imap_unordered(tested, todo, 4))
    keep = [t for t in todo if ok[t[0]]]
    json.dump(keep, open(f'{TMP}/list.json', 'w'))
    print(len(keep), 'pass the tests')


def run():
    sys.path.insert(0, ROOT + '/tools')
    sys.setrecursionlimit(20000)
    import selftest as T
    keep = json.load(open(f'{TMP}/list.json'))
    lo, hi = 0, len(keep)
    if len(sys.argv) > 2:       # numbers of the changes
        ids = {int(x) for x in sys.argv[2].split(',')}
        keep = [k for k in keep if k[0] in ids]
    base = 'V03 S18 A01 S01 S04 S05 S07 S09 S10 S11 S12 S16 S17 E01 E04'
    near = {'configs.py': 'G01 S13 S21', 'contexts.py': 'C01 S14 S19 E01 S09', 'exceptions.py': 'E01 E02 E03 E04 S02 S11 S12',
            'schema.py': 'S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11 S12 S13 S14 S15 S16 S17 S18 S19 S21 E04 C01 R01 N01',
            'type_validation.py': 'T03 T04 T05 T06 T07', 'validate.py': 'V01 V02 V03 V04 S17', 'fields/base.py': base, 'utils.py': 'A01 S01 S16',
            'fields/primitive.py': 'T01 T02 E01 A01', 'fields/structs.py': 'T03 T07 A01 E01', 'fields/nesting.py': 'N01 A01 E01',
            'fields/typings.py': 'T03 A01 E01'}
    GS = {f: list(T.groups(p.split()).items()) for f, p in near.items()}

    def weight(item):
        k, g = item
        j = T.registry.jobs(g[0][0])[g[0][1]]
        return (j.weight or 0) if hasattr(j, 'weight') else 5
    for f in GS:
        GS[f] = sorted((x for x in GS[f] if weight(x) <= 3), key=weight)
        print(f, len(GS[f]), 'analyses')
    open(f'{TMP}/survivors.txt', 'a').write(f'--- {lo} {hi}\n')
    with mp.get_context('fork').Pool(8, initializer=None) as pool:
        for i, f, line, what, new in keep[lo:hi]:
            name = f'mut{i}'
            d = f'{T.TMP}/{name}'
            tree(d)
            open(f'{d}/oblate/{f}', 'w').write(new)
            hit, broken = set(), []
            gs = GS[f]
            n = len(gs)
            cuts = [0, n // 2, n]
            for a, b in zip(cuts, cuts[1:]):
                for _, out, _ in pool.imap_unordered(T.task, [(name, k, g) for k, g in gs[a:b]], 2):
                    for pid, job, found, u in out:
                        if isinstance(found, str):
                            broken.append((pid, job, found[:100]))
                        elif found:
                            hit.add(pid)
                if hit:
                    break
            shutil.rmtree(d)
            s = f'{i} {f}:{line} {what!r} -> {sorted(hit) if hit else "SURVIVES"}' + (f' broken {broken[:1]}' if broken and not hit else '')
            print(s, flush=True)


if __name__ == '__main__':
    {'gen': gen, 'run': run}[sys.argv[1]]()
