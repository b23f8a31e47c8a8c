"""Create and confirm planted changes: python3 tools/plant.py [name ...]

Each entry of tools/seeds/*.py is SEED(id, property, needs, breaks, demo, (file, old, new) ...).
A change is written to /verif/seeded/<id>/ only when the repository's tests pass with it and the
demonstration fails with it and passes without it."""
import glob, json, os, shutil, subprocess, sys, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '87ae4a1'
seeds = []


def SEED(id, prop, needs, breaks, demo, *edits):
    seeds.append((id, prop, needs, breaks, demo, edits))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300, **kw)


def main():
    for f in sorted(glob.glob(f'{ROOT}/tools/seeds/*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'SEED': SEED})
    assert len({s[0] for s in seeds}) == len(seeds)
    names = sys.argv[1:]
    bad = 0
    orig = {}
    for id, prop, needs, breaks, demo, edits in seeds:
        out = f'{ROOT}/seeded/{id}'
        if names and not any(id == n or n.endswith('*') and id.startswith(n[:-1]) for n in names):
            continue
        if not names and os.path.exists(out):
            continue
        w = '/tmp/plant'
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w, symlinks=True)
        err = ''
        for file, old, new in edits:
            s = open(f'{w}/{file}').read()
            if s.count(old) < 1:
                err = f'{file}: not found: {old[:80]!r}'
                break
            base = orig.get(file) or orig.setdefault(file, sh(['git', 'show', f'{BASE}:{file}'], '/repo').stdout)
            open(f'{w}/{file}', 'w').write(s.replace(old, new, 1))
        if not err:
            patch = sh(['git', 'diff'], w).stdout
            gone = [l[1:] for l in patch.splitlines() if l.startswith('-') and not l.startswith('---')]
            if gone and not any(l in base.splitlines() for l in gone):
                err = 'changes no line of the original repository'
            env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1')
            if not err:
                r = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], w, env=env)
                if r.returncode:
                    err = 'tests fail: ' + ' '.join(l for l in r.stdout.splitlines() if 'FAILED' in l or 'Error' in l)[:200]
        if not err:
            d = '/tmp/plant-demo'
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + '/demo.py', 'w').write(textwrap.dedent(demo).lstrip())
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            ok = sh(['bash', d + '/demo.sh'], '/repo')
            no = sh(['bash', d + '/demo.sh'], w)
            if ok.returncode:
                err = 'demo fails on the unchanged tree: ' + ok.stderr[-200:]
            elif not no.returncode:
                err = 'demo passes with the change'
        if err:
            bad += 1
            print(f'{id:28} REFUSED {err}')
            continue
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(patch)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        print(f'{id:28} {prop} ok   ({(no.stderr.strip().splitlines() or [""])[-1][:90]})')
    sys.exit(bad > 0)


main()
