"""Which analyses decide which property."""
import re

tier = 'quick'


class Job:
    """One scenario analysed, and a rule applied to where it ends."""

    def __init__(self, cls, kw, rule, weight=None):
        self.cls, self.kw, self.rule = cls, kw, rule
        self.name = cls.op + '(' + ', '.join(f'{k}={v}' for k, v in kw.items()) + ')'
        self.weight = weight if weight is not None else cls.weight(kw)

    def run(self, repo, R):
        sc = self.cls(repo, **self.kw).build()
        for v in sc.views:
            self.rule(R, v)
        return stats(sc.it, len(sc.ends))


def stats(it, paths):
    return dict(functions=sorted(it.fn_seen), statements=len(it.stmts_seen), paths=paths,
                unmodelled={str(k): v for k, v in it.unknown.items()},
                user_calls={f'{k[0]}': v for k, v in it.user_calls.items()})


def table():
    from . import rules_ops
    t = dict(rules_ops.TABLE)
    for m in ('rules_class', 'rules_validators', 'rules_types', 'rules_values', 'rules_errors', 'rules_api', 'rules_context', 'rules_decl', 'rules_ident'):
        try:
            mod = __import__('sa.' + m, fromlist=['TABLE'])
        except ModuleNotFoundError as e:
            if m not in str(e):
                raise
            continue
        for k, v in mod.TABLE.items():
            if k in t:
                v = dict(v, jobs=(lambda a, b: lambda tier: a(tier) + b(tier))(t[k]['jobs'], v['jobs']),
                         explain=t[k]['explain'] + ' ' + v['explain'], floor=t[k]['floor'] + v['floor'],
                         assume=list(dict.fromkeys(t[k]['assume'] + v['assume'])), mods=t[k]['mods'] + v['mods'])
            t[k] = v
    return t


_t = None


def entry(pid):
    global _t
    if _t is None:
        _t = table()
    return _t[pid]


_jobs = {}


def jobs(pid):
    if (pid, tier) not in _jobs:
        _jobs[pid, tier] = entry(pid)['jobs'](tier)
    return _jobs[pid, tier]


def explain(pid):
    return entry(pid)['explain']


def floor(pid):
    return entry(pid)['floor']


def assumptions(pid):
    return entry(pid)['assume']


def rules(pid):
    import inspect
    out = set()
    for src in entry(pid)['mods']:
        try:
            out |= set(re.findall(r"sc, (?:e|None|path),\s+'([a-z0-9-]+)'", inspect.getsource(src)))
        except (OSError, TypeError):
            pass
    return out
