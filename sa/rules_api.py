"""Y01: programs a static type checker must accept or reject, line by line.

The witness programs in /verif/witness use the public API; a line ending in
'# rejected' must be reported by the checker and every other line must not be.
The checker reads /repo's annotated source; nothing is executed.
"""
import ast
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .repo import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = sorted(glob.glob(os.path.join(HERE, 'witness', '*.py')))


def tool(name):
    for p in (shutil.which(name), f'/usr/local/bin/{name}', f'/opt/veriftools/pyvenv/bin/{name}'):
        if p and os.path.exists(p):
            return p
    raise AnalysisBroken(f'{name} is not installed')


def mypy(root, d, names):
    env = dict(os.environ, MYPYPATH=root)
    env.pop('MYPY_CACHE_DIR', None)
    r = subprocess.run([tool('mypy'), '--config-file=', '--cache-dir=' + os.devnull, '--follow-imports=silent',
                        '--no-site-packages', '--check-untyped-defs', '--no-error-summary', '--no-color-output',
                        '--hide-error-context', *names],
                       cwd=d, env=env, capture_output=True, text=True, timeout=400)
    if r.returncode not in (0, 1):
        raise AnalysisBroken('mypy: ' + (r.stdout + r.stderr)[-400:])
    out = {}
    for line in r.stdout.splitlines():
        m = re.match(r'(?:\./)?([\w.]+\.py):(\d+)(?::\d+)?: error: (.*)', line)
        if m:
            out.setdefault((m[1], int(m[2])), []).append(m[3])
        elif ': error: ' in line and 'syntax' in line.lower():
            raise AnalysisBroken('mypy: ' + line)
    return out


def pyright(root, d, names):
    with open(os.path.join(d, 'pyrightconfig.json'), 'w') as fh:
        json.dump(dict(extraPaths=[root], typeCheckingMode='standard'), fh)
    r = subprocess.run([tool('pyright'), '--outputjson'], cwd=d, capture_output=True, text=True, timeout=400)
    try:
        diag = json.loads(r.stdout)['generalDiagnostics']
    except (ValueError, KeyError):
        raise AnalysisBroken('pyright: ' + (r.stdout + r.stderr)[-400:])
    out = {}
    for x in diag:
        if x['severity'] == 'error':
            k = os.path.basename(x['file']), x['range']['start']['line'] + 1
            out.setdefault(k, []).append(x['message'].split('\n')[0])
    return out


def declarations(root):
    """name -> places where the package declares it."""
    out = {}
    for p in sorted(glob.glob(os.path.join(root, 'oblate', '**', '*.py'), recursive=True)):
        with open(p) as fh:
            tree = ast.parse(fh.read())
        rel = os.path.relpath(p, root)
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                out.setdefault(c.name, []).append((f'{rel}:{c.lineno}', c.name))
                for f in c.body:
                    if isinstance(f, ast.FunctionDef):
                        out.setdefault(f.name, []).append((f'{rel}:{f.lineno}', f'{c.name}.{f.name}'))
        for f in tree.body:
            if isinstance(f, ast.FunctionDef):
                out.setdefault(f.name, []).append((f'{rel}:{f.lineno}', f.name))
    return out


class Place:
    def __init__(self, op):
        self.op = op


class Witness:
    """One run of a type checker over the witness programs."""
    weight = 1

    def __init__(self, checker):
        self.checker = checker
        self.name = f'{checker.__name__} over the witness programs'

    def run(self, repo, R):
        root = repo.root
        decl = declarations(root)
        names = [os.path.basename(f) for f in FILES]
        with tempfile.TemporaryDirectory() as d:
            for f in FILES:
                shutil.copy(f, d)
            got = self.checker(root, d, names)
        lines = 0
        for f in FILES:
            n = os.path.basename(f)
            last = ''
            for i, line in enumerate(open(f), 1):
                line = line.rstrip('\n')
                m = re.search(r'# rejected( by (\w+))?$', line)
                if line.startswith('class '):
                    last = line
                if not line.strip() or line.lstrip().startswith('#'):
                    continue
                lines += 1
                if m and m[2] and m[2] != self.checker.__name__:
                    continue
                code = line.split('  # rejected')[0].strip()
                used = re.findall(r'\w+', code + ' ' + (last if line.startswith(' ') else ''))
                if re.match(r'o\.\w+ = ', code) or re.match(r's\.number = ', code):
                    used.insert(0, '__set__')
                elif re.match(r'assert_type\((o|Outer|Schema\(\{\}\))\.\w+', code):
                    used.insert(0, '__get__')
                where = [f'{loc} ({fn}): declared here' for u in dict.fromkeys(used) for loc, fn in decl.get(u, ())][:8]
                sc = Place(f'{n}:{i}')
                msgs = got.get((n, i))
                if m:
                    R.need(bool(msgs), sc, where, 'misuse-reported', f'witness/{n}:{i}: {code}: is not reported')
                else:
                    R.need(not msgs, sc, where, 'use-accepted', f'witness/{n}:{i}: {code}: {(msgs or [""])[0]}')
        return dict(functions=sorted({fn for v in decl.values() for _, fn in v}), statements=lines, paths=lines,
                    unmodelled={}, user_calls={})


def jobs_y01(tier):
    return [Witness(mypy)] + ([Witness(pyright)] if tier == 'thorough' else [])


def y01(*a):
    "The rules: (sc, path, 'misuse-reported') and (sc, path, 'use-accepted')."


TABLE = {
    'Y01': dict(jobs=jobs_y01, explain='Witness programs over every public class and operation are given to a static type checker '
                'together with the annotated source: each line marked rejected must be reported, every other line accepted.',
                floor=200, assume=['the type checker (mypy; pyright too in the thorough tier) implements the typing rules'], mods=[y01],
                method='The checker reads the annotated source of /repo on each run; nothing of it is executed or imported.'),
}
