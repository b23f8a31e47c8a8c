B = 'oblate/fields/base.py'
CF = 'oblate/configs.py'
PR = 'oblate/fields/primitive.py'
ST = 'oblate/fields/structs.py'
N = 'oblate/fields/nesting.py'
TY = 'oblate/fields/typings.py'
V = 'oblate/validate.py'
S = 'oblate/schema.py'
HEAD = '''
     import typing as t
     import oblate
     from oblate import fields, validate
     '''
# ------------------------------------------------------------------- A01
SEED('a01-falsy-key', 'A01', 'an empty string as the key of a field in the data',
     'an empty data_key is ignored', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any(data_key='', load_key='l')
     assert A({'': 1}).dump() == {'': 1}
     ''', (B, 'self._load_key = data_key if data_key is not MISSING else load_key', 'self._load_key = data_key or load_key'))
SEED('a01-empty-key-name', 'A01', 'an empty string as dump key',
     'an empty dump key is replaced by the name', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any(dump_key='')
     assert A({'x': 1}).dump() == {'': 1}
     ''', (B, 'return self._name if self._dump_key is MISSING else self._dump_key', 'return self._dump_key or self._name'))
SEED('a01-key-precedence', 'A01', 'data_key together with dump_key',
     'an explicit dump key wins over data_key', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any(data_key='d', dump_key='u')
     assert A({'d': 1}).dump() == {'d': 1}
     ''', (B, 'self._dump_key = data_key if data_key is not MISSING else dump_key', 'self._dump_key = dump_key if dump_key is not MISSING else data_key'))
SEED('a01-default-none', 'A01', 'a default of None without a required option',
     'a field with default None stays required', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any(default=None)
     assert A({}).x is None
     ''', (B, 'self.required = required and (default is MISSING)', 'self.required = required and (default is MISSING or default is None)'))
SEED('a01-default-falsy', 'A01', 'a falsy default read from the field',
     'the default property hides falsy defaults', HEAD + '''
     f = fields.Any(default=0)
     assert f.default == 0 and f.default is not None and f.has_default()
     ''', (B, 'return self._default if self._default is not MISSING else None', 'return self._default or None'))
SEED('a01-extras-shared', 'A01', 'two fields without extras, one of which gets some later',
     'fields without extras share one dictionary', HEAD + '''
     f, g = fields.Any(), fields.Any()
     f.extras['a'] = 1
     assert g.extras == {}
     ''', (B, 'extras: Dict[str, Any] = MISSING,', 'extras: Dict[str, Any] = {},'),
     (B, 'self.extras = extras if extras is not MISSING else {}', 'self.extras = extras'))
SEED('a01-extras-empty', 'A01', 'an empty dictionary of extras filled after the declaration',
     'an empty extras dictionary is not kept', HEAD + '''
     d = {}
     f = fields.Any(extras=d)
     d['later'] = 1
     assert f.extras == {'later': 1}
     ''', (B, 'self.extras = extras if extras is not MISSING else {}', 'self.extras = extras if extras is not MISSING and extras else {}'))
SEED('a01-structs-drop', 'A01', 'a list field without a type argument that allows None',
     'list fields without a type argument drop the none option', HEAD + '''
     f = fields.List(frozen=True, none=True)
     assert f.frozen and f.none
     ''', (ST, "        self._tp = None if type is MISSING else TypeValidator({'root': ListT[type]})\n        super().__init__(**kwargs)\n", "        self._tp = None if type is MISSING else TypeValidator({'root': ListT[type]})\n        super().__init__(**(dict(kwargs, none=False) if type is MISSING else kwargs))\n"))
SEED('a01-union-none', 'A01', 'a type expression field declared none=True',
     'a type-expression field loses the none option', HEAD + '''
     f = fields.TypeExpr(int, none=True)
     assert f.none
     ''', (TY, '    def __init__(self, expr: t.Type[_T], **kwargs: t.Any):', '    def __init__(self, expr: t.Type[_T], none: bool = False, **kwargs: t.Any):'))
SEED('a01-object-frozen', 'A01', 'a nested field with init_kwargs and further options',
     'an object field that is given init_kwargs is never frozen', HEAD + '''
     class I(oblate.Schema):
         x = fields.Any()
     f = fields.Object(I, frozen=True, init_kwargs={'ignore_extra': True})
     assert f.frozen
     ''', (N, 'super().__init__(**kwargs)', "super().__init__(**{k: v for k, v in kwargs.items() if init_kwargs is MISSING or k != 'frozen'})"))

# ------------------------------------------------------------------- G01
SEED('g01-shared-values', 'G01', 'two configuration objects',
     'configuration objects share their options', HEAD + '''
     a, b = oblate.GlobalConfig(), oblate.GlobalConfig()
     a.warn_unsupported_types = False
     assert b.warn_unsupported_types is True
     ''', (CF, "    __slots__ = (\n        '_values',\n    )\n\n    __config_options__", "    _values: Dict[str, Any] = {}\n\n    __config_options__"),
     (CF, '        self._values: Dict[str, Any] = {}\n\n', ''))
SEED('g01-falsy-default', 'G01', 'an option switched off is read back',
     'a falsy option reads as its default', HEAD + '''
     c = oblate.GlobalConfig(warn_unsupported_types=False)
     assert c.warn_unsupported_types is False
     ''', (CF, '            return instance._values[self._name]\n', '            return instance._values[self._name] or self._default\n'))
SEED('g01-bool-truthy', 'G01', 'a number given for a switch',
     'integers are accepted as switches', HEAD + '''
     c = oblate.GlobalConfig()
     try: c.warn_unsupported_types = 0
     except TypeError: pass
     else: assert 0
     ''', (CF, 'if not isinstance(value, bool):', 'if not isinstance(value, (bool, int)):'))
SEED('g01-store-first', 'G01', 'an improper option is refused and the option read afterwards',
     'an option is stored before it is checked', HEAD + '''
     c = oblate.GlobalConfig()
     try: c.warn_unsupported_types = 'x'
     except TypeError: pass
     assert c.warn_unsupported_types is True
     ''', (CF, '        if self._setter:\n            value = self._setter(instance, value)\n\n        instance._values[self._name] = value\n',
           '        instance._values[self._name] = value\n        if self._setter:\n            instance._values[self._name] = self._setter(instance, value)\n'))
SEED('g01-name-clash', 'G01', 'both options of one object set to something else than their default',
     'options are stored under the name of their owner class', HEAD + '''
     c = oblate.GlobalConfig()
     c.warn_unsupported_types = False
     class E(oblate.ValidationError): pass
     c.validation_error_cls = E
     assert c.warn_unsupported_types is False
     ''', (CF, 'self._name = func.__name__\n', "self._name = 'value' if func.__annotations__ else func.__name__\n"))

# ------------------------------------------------------------------- Y01
def witness(ok='', bad=''):
    return f"""
     import os, subprocess, sys, tempfile, textwrap
     HEAD = 'import typing as t\\nfrom typing_extensions import assert_type\\nimport oblate\\nfrom oblate import fields, validate\\n'
     def errors(code):
         with tempfile.TemporaryDirectory() as d:
             open(d + '/prog.py', 'w').write(HEAD + textwrap.dedent(code))
             r = subprocess.run(['mypy', '--config-file=', '--cache-dir=' + os.devnull, '--follow-imports=silent', '--no-site-packages',
                                 '--check-untyped-defs', 'prog.py'], cwd=d, env=dict(os.environ, MYPYPATH=os.environ['PYTHONPATH']),
                                capture_output=True, text=True)
             return 'prog.py' in r.stdout, r.stdout
     bad, out = errors({ok!r})
     assert not bad, out
     for line in {bad!r}.splitlines():
         if line.strip():
             bad, out = errors({ok!r} + line.strip() + '\\n')
             assert bad, line
     """


OUT = '''
class Inner(oblate.Schema):
    id = fields.Integer()
class A(oblate.Schema):
    name = fields.String()
    inner = fields.Object(Inner)
    tags = fields.List(str)
    kv = fields.Dict(str, int)
a = A({})
'''
SEED('y01-set-any', 'Y01', 'a type checker run over a program that assigns a value of the wrong type',
     'assignment to any field accepts everything for a type checker', witness(OUT, "a.name = 5"),
     (B, 'def __set__(self, instance: Schema, value: RawValueT) -> None:', 'def __set__(self, instance: Schema, value: Any) -> None:'))
SEED('y01-get-overload', 'Y01', 'a type checker run over a program that reads a field from the class',
     'a field read from the class has the type of its value', witness(OUT + 'assert_type(A.name, fields.String)\n'),
     (B, '    def __get__(self, instance: Literal[None], owner: Type[Schema]) -> Self:\n', '    def __get__(self, instance: Literal[None], owner: Type[Schema]) -> FinalValueT:\n'))
SEED('y01-copy-base', 'Y01', 'a type checker run over a program that copies a schema',
     'the copy of a schema is only known as a schema', witness(OUT + 'assert_type(a.copy(), A)\n'),
     (S, 'def copy(self) -> Self:', 'def copy(self) -> Schema:'))
SEED('y01-string-any', 'Y01', 'a type checker run over a program that reads a string field',
     'the value of a string field has no type', witness(OUT + 'assert_type(a.name, str)\n'),
     (PR, 'class String(Field[str, str]):', 'class String(Field[Any, Any]):'))
SEED('y01-object-mapping', 'Y01', 'a type checker run over a program that reads a nested field',
     'the value of a nested field has no type', witness(OUT + 'assert_type(a.inner, Inner)\n'),
     (N, 'class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):', 'class Object(Field[Union[Mapping[str, Any], SchemaT], Any], Generic[SchemaT]):'),
     (N, 'from typing import TYPE_CHECKING,', 'from typing import Generic, TYPE_CHECKING,') )
SEED('y01-dict-swapped', 'Y01', 'a type checker run over a program that uses a dict field with different key and value types',
     'the type arguments of a dict field are swapped', witness(OUT + 'assert_type(a.kv, t.Dict[str, int])\n', "a.kv = {1: 'a'}"),
     (ST, 'class Dict(_BaseStructField[DictT[KT, VT], DictT[KT, VT]]):', 'class Dict(_BaseStructField[DictT[VT, KT], DictT[VT, KT]]):'))
SEED('y01-validator-any', 'Y01', 'a type checker run over a program that registers something that is no validator',
     'anything is accepted as a validator', witness(OUT, 'A.name.add_validator(5)'),
     (B, 'def add_validator(self, validator: ValidatorT[Any, Any], *, raw: bool = False) -> None:', 'def add_validator(self, validator: Any, *, raw: bool = False) -> None:'))
SEED('y01-range-any', 'Y01', 'a type checker run over a program that gives text as a bound',
     'the bounds of the range validator have no type', witness(OUT, "validate.Range('a')"),
     (V, 'def __init__(self, lb: int = MISSING, ub: int = MISSING, /) -> None:', 'def __init__(self, lb: Any = MISSING, ub: Any = MISSING, /) -> None:'))
