B = 'oblate/fields/base.py'
CX = 'oblate/contexts.py'
TV = 'oblate/type_validation.py'
S = 'oblate/schema.py'
U = 'oblate/utils.py'
N = 'oblate/fields/nesting.py'
V = 'oblate/validate.py'
HEAD = '''
     import typing as t
     import oblate
     from oblate import fields, validate

     def fails(f, exc=oblate.ValidationError):
         try:
             f()
         except exc as err:
             return err
         raise SystemExit('no failure')
     '''
SEED('s01-raw-alone', 'S01', 'a field with a raw validator and no other validator, at construction',
     'raw validators are skipped at construction when the field has no other validator', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(strict=False)
         @validate.field(x, raw=True)
         def check(self, value, ctx):
             assert value != '3'
     fails(lambda: A({'x': '3'}))
     ''', (S, '        if field._raw_validators and lazy_validation:\n            validators.append((field, value, context, True))\n',
           '        if lazy_validation and field._validators:\n            validators.append((field, value, context, True))\n'))
SEED('s17-mixin-base', 'S17', 'a schema class with a base class that is no schema',
     'a schema cannot be defined with a plain mixin among its bases', HEAD + '''
     class Plain:
         pass
     class P(oblate.Schema):
         x = fields.Integer()
     class C(Plain, P):
         pass
     class D(P, Plain):
         pass
     assert C({'x': 1}).x == D({'x': 1}).x == 1
     ''', (S, "                if issubclass(base, Schema) and hasattr(base, '__config__'):\n                    config = base.__config__\n",
           "                config = vars(base)['__config__']\n"))
SEED('s17-live-members', 'S17', 'a validator in a class body that names an inherited field',
     'the members of the class are looked at in place', HEAD + '''
     class P(oblate.Schema):
         x = fields.Integer()
     class C(P):
         @validate.field('x')
         def check(self, value, ctx):
             assert value != 3
     fails(lambda: C({'x': 3}))
     P({'x': 3})
     ''', (S, '        members = vars(cls).copy()\n', '        members = vars(cls)\n'))
SEED('t04-hash-equal', 'T04', 'two values that are equal and of different types, checked one after the other',
     'the outcome of a check is remembered for equal values', HEAD + '''
     oblate.validate_types({'a': int}, {'a': 1})
     fails(lambda: oblate.validate_types({'a': int}, {'a': 1.0}), oblate.TypeValidationError)
     oblate.validate_types({'a': float}, {'a': 2.0})
     fails(lambda: oblate.validate_types({'a': float}, {'a': 2}), oblate.TypeValidationError)
     ''', (TV, '        validated, errors = self._process_value(value, tp)\n        return validated, errors\n',
           '        try:\n            return self._process_hashable(value, tp)\n        except TypeError:\n            return self._process_value(value, tp)\n\n'
           '    @classmethod\n    @functools.lru_cache(maxsize=256)\n    def _process_hashable(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:\n        return cls._process_value(value, tp)\n'),
     (TV, 'import warnings\n', 'import functools\nimport warnings\n'))
SEED('s03-restore-changed', 'S03', 'a failing update that replaced a value by an equal one of another type',
     'the rollback restores only values that differ by comparison', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any()
         y = fields.Integer(required=False)
     a = A({'x': 1})
     fails(lambda: a.update({'x': True, 'y': 'no'}))
     assert a.x is not True
     ''', (S, "            self._field_values = old_values\n            raise\n",
           "            for name in list(self._field_values):\n                if name not in old_values:\n                    del self._field_values[name]\n"
           "                elif self._field_values[name] != old_values[name]:\n                    self._field_values[name] = old_values[name]\n            raise\n"))
SEED('s05-same-value', 'S05', 'assigning a frozen field the value it already has',
     'assigning the current value to a frozen field is silently accepted', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(frozen=True)
     a = A({'x': 1})
     def f():
         a.x = 1
     fails(f, oblate.FrozenError)
     ''', (B, '        if self.frozen:\n            raise FrozenError(self)\n',
           '        if self.frozen and instance._field_values.get(self._name, MISSING) is not value:\n            raise FrozenError(self)\n'))
SEED('s04-equal-skip', 'S04', 'assigning a value equal to the current one but of another type',
     'assignment of a value equal to the current one is skipped with all its checks', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer()
     a = A({'x': 1})
     def f():
         a.x = 1.0
     fails(f)
     ''', (B, '        schema_token = current_schema.set(instance)\n        field_name = current',
           '        if value is not None and instance._field_values.get(self._name) == value:\n            return\n\n        schema_token = current_schema.set(instance)\n        field_name = current'))
SEED('s13-captured', 'S13', 'the error class is replaced between construction and update',
     'update raises the error class that was configured when the schema object was created', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer()
     a = A({'x': 1})
     class E(oblate.ValidationError):
         pass
     oblate.config.validation_error_cls = E
     assert type(fails(lambda: a.update({'x': 'no'}))) is E
     ''', (S, '            self._context = SchemaContext(self, state=state)\n', '            self._context = SchemaContext(self, state=state)\n            self._context._error_cls = oblate.config.validation_error_cls\n'),
     (S, '''            if errors:
                raise oblate.config.validation_error_cls(errors)
        except BaseException:
''', '''            if errors:
                raise self._context._error_cls(errors)
        except BaseException:
'''), (CX, "        '_initialized'\n", "        '_initialized',\n        '_error_cls',\n"), (CX, '        self._initialized = False\n', '        self._initialized = False\n        self._error_cls = None\n'))
SEED('p01-thread-record', 'P01', 'two asyncio tasks validating in turns, suspended inside user code driven by greenlets or generators',
     'the record of the current schema is kept per thread instead of per context', HEAD + '''
     import contextvars
     seen = []
     class F(fields.Field):
         def value_load(self, value, ctx):
             def other():
                 from oblate.utils import current_field_key
                 current_field_key.set('elsewhere')
             contextvars.copy_context().run(other)
             raise ValueError('bad')
         def value_dump(self, value, ctx):
             return value
     class A(oblate.Schema):
         x = F(load_key='k')
     e = fails(lambda: A({'k': 1}))
     assert [x.key for x in e.errors] == ['k'], [x.key for x in e.errors]
     ''', (U, "current_field_key: ContextVar[str] = ContextVar('current_field_key')\n", '''

class _Record(threading.local):
    """The key that is being processed."""
    def __init__(self) -> None:
        self.value = None

    def get(self, default: Any = None) -> Any:
        return default if self.value is None else self.value

    def set(self, value: Any) -> Any:
        old, self.value = self.value, value
        return old

    def reset(self, token: Any) -> None:
        self.value = token


current_field_key = _Record()
'''), (U, 'from contextvars import ContextVar\n', 'from contextvars import ContextVar\nimport threading\n'))
SEED('s15-dump-key-once', 'S15', 'a selected field whose dump key is the name of an unselected field',
     'the dumped data is filtered by its keys after the loop', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(dump_key='y')
         y = fields.Integer(dump_key='x')
     a = A({'x': 1, 'y': 2})
     assert a.dump(include=['x']) == {'y': 1}
     ''', (S, "            if errors:\n                raise oblate.config.validation_error_cls(errors)\n        finally:\n            current_schema.reset(schema_token)\n\n        return out\n",
           "            if errors:\n                raise oblate.config.validation_error_cls(errors)\n        finally:\n            current_schema.reset(schema_token)\n\n        hidden = self.__fields__.keys() - fields\n        return {k: v for k, v in out.items() if k not in hidden}\n"))
SEED('s02-same-field-twice', 'S02', 'two validators of one field failing, one of them raw, in an update',
     'an update reports only one failing stage of a field', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer()
         @validate.field(x, raw=True)
         def one(self, value, ctx):
             assert value < 3, 'one'
         @validate.field(x)
         def two(self, value, ctx):
             assert value < 3, 'two'
     a = A({'x': 1})
     e = fails(lambda: a.update({'x': 5}))
     assert {x.message for x in e.errors} == {'one', 'two'}
     ''', (S, "            if not lazy_validation:\n                validator_errors.extend(field._run_validators(final_value, context, raw=False))\n",
           "            if not lazy_validation:\n                validator_errors = validator_errors or field._run_validators(final_value, context, raw=False)\n"))
