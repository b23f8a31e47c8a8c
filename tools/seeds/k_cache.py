TV = 'oblate/type_validation.py'
S = 'oblate/schema.py'
HEAD = '''
     import typing as t
     import oblate
     from oblate import fields, validate

     def fails(f, exc=oblate.ValidationError):
         try:
             f()
         except exc as err:
             return err
         raise SystemExit('no failure')
     '''
DEMO = HEAD + '''
     class D(t.TypedDict):
         a: int
     oblate.validate_types({'d': D}, {'d': {'a': 1}})
     fails(lambda: oblate.validate_types({'d': D}, {'d': {}}), oblate.TypeValidationError)
     oblate.validate_types({'d': D}, {'d': {'a': 1}})
     '''
SEED('t06-by-name', 'T06', 'two typed dictionary classes of one name in one module',
     'the declared keys of typed dictionaries are remembered by the name of the class', HEAD + """
     def make(**keys):
         return t.TypedDict('D', keys)
     A, B = make(a=int), make(b=str)
     oblate.validate_types({'d': A}, {'d': {'a': 1}})
     oblate.validate_types({'d': B}, {'d': {'b': 'x'}})
     fails(lambda: oblate.validate_types({'d': B}, {'d': {'a': 1}}), oblate.TypeValidationError)
     """, (TV, "        for key, value in value.items():  # type: ignore\n            try:\n                attr_tp = typehints",
           "        typehints = dict(cls._hints.setdefault((tp.__module__, tp.__qualname__), typehints))\n        for key, value in value.items():  # type: ignore\n            try:\n                attr_tp = typehints"),
     (TV, "        if not isinstance(value, dict):\n            return False, [f'Must be a {tp.__name__} dictionary']  # pragma: no cover\n",
          "        if not isinstance(value, dict):\n            return False, [f'Must be a dictionary of type {tp.__name__}']  # pragma: no cover\n"),
     (TV, "    __slots__ = ('types',)\n\n    def __init__(self, types", "    _hints: Dict[Any, Any] = {}\n\n    __slots__ = ('types',)\n\n    def __init__(self, types"))
SEED('s15-memo-selection', 'S15', 'dumping with the same selection before and after a field is set',
     'the fields selected for a dump are computed once per selection with the values of then', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(required=False)
         y = fields.Integer(required=False)
     a = A({'y': 2})
     assert a.dump(include=['x']) == {}
     a.x = 1
     assert a.dump(include=['x']) == {'x': 1}
     ''', (S, "        if include is not MISSING:\n            fields = fields.intersection(set(include))\n",
           "        if include is not MISSING:\n            fields = set(self._selected(tuple(include)))\n"),
     (S, "    def dump(self, *, include", "    @functools.lru_cache(maxsize=128)\n    def _selected(self, names: Tuple[str, ...]) -> Tuple[str, ...]:\n        return tuple(name for name in self._field_values if name in names)\n\n    def dump(self, *, include"),
     (S, 'import copy\n', 'import copy\nimport functools\n'))
