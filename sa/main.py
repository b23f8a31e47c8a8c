"""Decide one property of the source tree in /repo: python sa/main.py <property>.

Exit 0: every obligation is discharged. Exit 1: a VIOLATION line. Exit 2: the
analysis could not be carried out (an anchor is gone, or the code leaves what
the interpreter models), which is an answer neither way.
"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

from sa.repo import Repo, AnalysisBroken  # noqa: E402
from sa.report import Report  # noqa: E402
from sa import registry  # noqa: E402

REPO = os.environ.get('SA_REPO', '/repo')
_repo = None


def run_job(arg):
    pid, n = arg
    R = Report(pid)
    t = time.time()
    try:
        job = registry.jobs(pid)[n]
        stats = job.run(_repo, R)
        return dict(n=n, stats=stats, found=list(R.found.values()), obligations=R.obligations,
                    passed=R.obligations - R.failed, wall=time.time() - t)
    except AnalysisBroken as e:
        return dict(n=n, broken=str(e))
    except RecursionError:
        return dict(n=n, broken='recursion too deep')
    except Exception:
        return dict(n=n, broken=traceback.format_exc())


def known_findings():
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = dict(x.split('=', 1) for x in line[7:].split(' | ') if '=' in x)
                d['text'] = line[7:].split(' | ')[-1]
                out.append(d)
    return out


def main(pid, tier=None):
    global _repo
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    registry.tier = tier
    sys.setrecursionlimit(20000)
    try:
        _repo = Repo(REPO)
        jobs = registry.jobs(pid)
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={pid}: {e}')
        return 2
    except SyntaxError as e:
        print(f'ANALYSIS-BROKEN property={pid}: {e}')
        return 2
    order = sorted(range(len(jobs)), key=lambda n: -jobs[n].weight)
    results = []
    if len(jobs) == 1:
        results = [run_job((pid, 0))]
    else:
        with mp.get_context('fork').Pool(min(8, len(jobs))) as pool:
            for r in pool.imap_unordered(run_job, [(pid, n) for n in order], 1):
                results.append(r)
    results.sort(key=lambda r: r['n'])
    broken = [r for r in results if 'broken' in r]
    found, names, functions, statements, paths, unmodelled = [], [], set(), 0, 0, {}
    ob = ok = 0
    user = {}
    for r in results:
        if 'broken' in r:
            continue
        found += [dict(f, job=jobs[r['n']].name) for f in r['found']]
        ob += r['obligations']
        ok += r['passed']
        s = r['stats']
        functions |= set(s.get('functions', ()))
        statements += s.get('statements', 0)
        paths += s.get('paths', 0)
        for k, v in s.get('unmodelled', {}).items():
            unmodelled[k] = unmodelled.get(k, 0) + v
        for k, v in s.get('user_calls', {}).items():
            user[k] = user.get(k, 0) + v
        names.append(dict(analysis=jobs[r['n']].name, obligations=r['obligations'], end_states=s.get('paths', 0)))
    known = known_findings()
    new = []
    for f in found:
        hit = [k for k in known if k.get('property') == pid and k.get('rule') == f['rule'] and
               (k.get('in', '') in f.get('fn', '') + ' ' + f['at'])]
        if hit:
            print(f'KNOWN-FINDING: property={pid} {hit[0]["text"]}')
        else:
            new.append(f)
    title = next((json.loads(x)['title'] for x in open(os.path.join(ROOT, 'properties.jsonl'))
                  if json.loads(x)['id'] == pid), '')
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(
                  explanation=registry.explain(pid) + ' ' + (registry.entry(pid).get('method') or 'The abstract interpreter in /verif/sa evaluates the functions '
                  'listed under functions_analysed on the syntax tree, over all values of the symbolic inputs, joining states and '
                  'summarising loops to a fixpoint; each rule is checked on every abstract state in which the '
                  'operation ends. Nothing of /repo is executed or imported.'),
                  rules=sorted(registry.rules(pid)), analyses=names, obligations=ob, discharged=ok,
                  end_states=paths, statements_interpreted=statements,
                  functions_analysed=sorted(functions), calls_into_user_code=user,
                  unmodelled_constructs=unmodelled),
              assumptions=registry.assumptions(pid), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if new:
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        rp = os.path.join(ROOT, 'replay', pid + '.json')
        with open(rp, 'w') as fh:
            json.dump(new, fh, indent=1)
        for f in new[:6]:
            print(f'{pid} {title}')
            print(f'  rule {f["rule"]} in {f["job"]} at {f["at"]}: {f["text"]}')
            for p in f['path']:
                print('    ' + p)
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if broken:
        for r in broken[:3]:
            print(f'ANALYSIS-BROKEN property={pid} {jobs[r["n"]].name}: {r["broken"]}')
        return 2
    if ob < registry.floor(pid):
        print(f'ANALYSIS-BROKEN property={pid}: only {ob} obligations generated')
        return 2
    print(f'{pid}: held; {ob} obligations on {paths} end states of {len(jobs)} analyses, '
          f'{len(functions)} functions ({time.time() - t0:.1f}s)')
    return 0


if __name__ == '__main__':
    sys.exit(main(*sys.argv[1:3]))
