"""Collects what the rules of one property find."""


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.found = {}
        self.obligations = 0
        self.failed = 0

    def need(self, cond, sc, e, rule, text=''):
        self.obligations += 1
        if cond:
            return True
        self.failed += 1
        key = (rule, getattr(sc, 'op', str(sc)))
        if key in self.found:
            return False
        path = e if isinstance(e, list) else e.path() if e is not None else []
        at = ''
        for p in path:
            if '.py:' in p:
                at = p.split(': ')[0]
        if not at and '.py:' in text:
            at = text.split(': ')[0]
        self.found[key] = dict(rule=rule, op=getattr(sc, 'op', ''), text=text, at=at, path=path[-14:],
                               end=getattr(e, 'kind', ''))
        return False
