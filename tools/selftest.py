"""Run the checks on variants of the source tree (development only).

python3 tools/selftest.py [-t] [-a] [name ...]
Variants are in selftest/*.py: V(name, expect, (file, old, new), ...). expect: properties
whose check must report the variant; empty for a change that preserves behaviour.
-t also runs the repository's tests on each variant; -a runs every property on mutants too.
"""
import glob
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from sa import registry  # noqa: E402
from sa.repo import Repo, AnalysisBroken  # noqa: E402
from sa.report import Report  # noqa: E402

TMP = '/tmp/selftest'


class V:
    all = []

    def __init__(self, name, expect, *edits, patch=None):
        self.name, self.expect, self.edits, self.patch = name, expect.split(), edits, patch
        V.all.append(self)


def prepare(v):
    d = f'{TMP}/{v.name}'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for x in ('oblate', 'tests', 'pytest.ini', 'setup.py', 'README.md', 'requirements.txt'):
        s = f'/repo/{x}'
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, f'{d}/{x}')
    if v.patch:
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, v.patch], cwd='/', capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(['patch', '-p1', '-i', v.patch], cwd=d, capture_output=True, text=True)
            if r.returncode:
                return f'patch fails: {r.stdout} {r.stderr}'
    for f, old, new in v.edits:
        p = f'{d}/oblate/{f}'
        s = open(p).read()
        if old is None:
            s = s + new
        elif s.count(old) != 1:
            return f'{f}: {s.count(old)} matches of {old!r}'
        else:
            s = s.replace(old, new)
        open(p, 'w').write(s)
    return None


LIMIT = int(os.environ.get('LIMIT', '100'))


class Slow(Exception):
    pass


def alarm(*a):
    raise Slow(f'slower than {LIMIT} s')


REPOS = {}


def task(arg):
    name, key, group = arg
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT)
    t0 = time.time()
    out = []
    try:
        if name not in REPOS:
            REPOS.clear()
            REPOS[name] = Repo(f'{TMP}/{name}')
        repo = REPOS[name]
        sc = None
        for pid, n in group:
            R = Report(pid)
            job = registry.jobs(pid)[n]
            try:
                if hasattr(job, 'cls'):
                    if sc is None:
                        sc = job.cls(repo, **job.kw).build()
                    for v in sc.views:
                        job.rule(R, v)
                    st = registry.stats(sc.it, 1)
                else:
                    st = job.run(repo, R)
                out.append((pid, job.name, list(R.found.values()), st['unmodelled']))
            except AnalysisBroken as e:
                out.append((pid, job.name, 'BROKEN ' + str(e), {}))
    except Exception as e:
        out.append((group[0][0], str(key), 'BROKEN ' + (str(e) + str(key) if isinstance(e, (Slow, AnalysisBroken)) else traceback.format_exc()[-300:]), {}))
    signal.alarm(0)
    return name, out, time.time() - t0


def groups(pids):
    g = {}
    for pid in pids:
        for n, j in enumerate(registry.jobs(pid)):
            k = (j.cls.__name__, j.cls.__module__, repr(sorted(j.kw.items())), pid == 'E01', str(getattr(j.kw.get('spec'), 'world', ''))) if hasattr(j, 'cls') else (pid, n)
            g.setdefault(k, []).append((pid, n))
    return g


def main():
    args = sys.argv[1:]
    tests, everything = '-t' in args, '-a' in args
    names = [a for a in args if not a.startswith('-')]
    ns = {'V': V}
    for f in sorted(glob.glob(f'{ROOT}/selftest/*.py')):
        exec(compile(open(f).read(), f, 'exec'), ns)
    import json
    for d in sorted(glob.glob(f'{ROOT}/seeded/*/')):
        pid = json.load(open(d + 'meta.json'))['property']
        V('seed-' + os.path.basename(d[:-1]), pid, patch=d + 'patch.diff')
    vs = [v for v in V.all if not names or any(v.name == n or n.endswith('*') and v.name.startswith(n[:-1]) for n in names)]
    only = [a[2:].split(',') for a in args if a.startswith('-p')]
    allp = sorted(registry.table()) if not only else only[0]
    tasks = []
    todo = []
    for v in vs:
        err = prepare(v)
        if err:
            print(f'{v.name:32} CANNOT APPLY {err}')
            continue
        if tests:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'],
                               cwd=f'{TMP}/{v.name}', capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=f'{TMP}/{v.name}'))
            if r.returncode:
                print(f'{v.name:32} TESTS FAIL {r.stdout.strip().splitlines()[-1][:150]}')
        todo.append(v)
        claimed = [p for p in v.expect if p in allp]
        for p in v.expect:
            if p not in allp:
                print(f'{v.name:32} {p} has no check')
        for k, g in groups(allp if everything or not v.expect else claimed).items():
            tasks.append((v.name, k, g))
    res = {v.name: [] for v in todo}
    left = {v.name: sum(1 for t in tasks if t[0] == v.name) for v in todo}
    t0 = time.time()
    bad = 0
    with mp.get_context('fork').Pool(8) as pool:
        for name, out, wall in pool.imap_unordered(task, tasks, 1):
            res[name] += out
            left[name] -= 1
            if left[name]:
                continue
            v = next(x for x in todo if x.name == name)
            hit, broken, unk = {}, [], {}
            for pid, job, found, u in res[name]:
                for k, c in u.items():
                    unk[k] = unk.get(k, 0) + c
                if isinstance(found, str):
                    broken.append((pid, job, found))
                elif found:
                    hit.setdefault(pid, []).extend((f['rule'], job, f['text'], f['at']) for f in found)
            missing = [p for p in v.expect if p not in hit]
            ok = not missing and (bool(v.expect) or not hit) and not broken
            bad += not ok
            print(f'{name:32} {"ok  " if ok else "FAIL"} caught by {sorted(hit)}' + (f' MISSED {missing}' if missing else ''), flush=True)
            if not ok and not v.expect or '-v' in args:
                seen = set()
                for p, fs in sorted(hit.items()):
                    for f in fs:
                        if (p, f[0]) not in seen:
                            seen.add((p, f[0]))
                            print(f'      {p} {f[0]} {f[1]} {f[3]} {f[2][:200]}')
            for p, j, b in broken[:3]:
                print(f'      BROKEN {p} {j}: {b[-500:]}')
            if unk and (not ok or not v.expect):
                print('      unmodelled:', str(unk)[:400])
            shutil.rmtree(f'{TMP}/{name}')
    print(f'{bad} bad of {len(todo)} in {time.time() - t0:.0f}s')


if __name__ == '__main__':
    main()
