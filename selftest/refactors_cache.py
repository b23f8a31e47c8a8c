TV, S = 'type_validation.py', 'schema.py'
V('ty-memo-union', '', (TV, '    @classmethod\n    def _is_origin_union(', '    @classmethod\n    @functools.lru_cache(maxsize=None)\n    def _is_origin_union('),
  (TV, 'import warnings\n', 'import functools\nimport warnings\n'))
V('ty-memo-hints', '', (TV, '        typehints = get_type_hints(tp, include_extras=True)\n', '        typehints = dict(_declared_keys(tp))\n'),
  (TV, 'class TypeValidator:\n', '@functools.cache\ndef _declared_keys(tp: Any) -> Dict[str, Any]:\n    return get_type_hints(tp, include_extras=True)\n\n\nclass TypeValidator:\n'),
  (TV, 'import warnings\n', 'import functools\nimport warnings\n'))
V('tym-memo-hints', 'T06', (TV, '        typehints = get_type_hints(tp, include_extras=True)\n', '        typehints = _declared_keys(tp)\n'),
  (TV, 'class TypeValidator:\n', '@functools.cache\ndef _declared_keys(tp: Any) -> Dict[str, Any]:\n    return get_type_hints(tp, include_extras=True)\n\n\nclass TypeValidator:\n'),
  (TV, 'import warnings\n', 'import functools\nimport warnings\n'))
V('tym-class-hints', 'T06', (TV, '        typehints = get_type_hints(tp, include_extras=True)\n', '        typehints = cls._hints.get(tp)\n        if typehints is None:\n            typehints = cls._hints[tp] = get_type_hints(tp, include_extras=True)\n'),
  (TV, "    __slots__ = ('types',)\n\n    def __init__(self, types", "    _hints: Dict[Any, Any] = {}\n\n    __slots__ = ('types',)\n\n    def __init__(self, types"))
