B = 'oblate/fields/base.py'
CF = 'oblate/configs.py'
CX = 'oblate/contexts.py'
E = 'oblate/exceptions.py'
PR = 'oblate/fields/primitive.py'
ST = 'oblate/fields/structs.py'
N = 'oblate/fields/nesting.py'
TY = 'oblate/fields/typings.py'
TV = 'oblate/type_validation.py'
V = 'oblate/validate.py'
S = 'oblate/schema.py'
U = 'oblate/utils.py'
HEAD = '''
     import typing as t
     import oblate
     from oblate import fields, validate

     def fails(f, exc=oblate.ValidationError):
         try:
             f()
         except exc as err:
             return err
         raise SystemExit('no failure')
     '''
SEED('e04-frozen-owner', 'E04', 'a frozen field of a schema that is not frozen itself, inherited by a subclass',
     'a frozen error of a field that another class declares carries the schema', HEAD + '''
     class P(oblate.Schema):
         x = fields.Integer(frozen=True)
     class C(P):
         pass
     c = C({'x': 1})
     try:
         c.x = 2
     except oblate.FrozenError as e:
         assert e.entity is P.x
     ''', (B, '            raise FrozenError(self)\n', '            raise FrozenError(self if self._schema is type(instance) else instance)\n'))
SEED('e04-frozen-update', 'E04', 'update of a schema whose configuration freezes it, with a frozen field too',
     'update reports the first frozen field of a frozen schema instead of the schema', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(frozen=True)
         class Config(oblate.SchemaConfig):
             frozen = True
     a = A({'x': 1})
     try:
         a.update({'x': 2})
     except oblate.FrozenError as e:
         assert e.entity is a
     ''', (S, '            raise FrozenError(self)\n', "            raise FrozenError(next((self.__load_fields__[k] for k in data if k in self.__load_fields__ and self.__load_fields__[k].frozen), self))\n"))
SEED('e04-unset-key', 'E04', 'a field with a load key read through its load key',
     'the field-not-set error names the attribute although the load key was used', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(load_key='k', required=False)
     a = A({})
     try:
         a.get_value_for('k')
     except oblate.FieldNotSet as e:
         assert e.field_name == 'k', e.field_name
     ''', (E, '        self.field_name = field_name\n', '        self.field_name = field_name if not hasattr(type(schema), field._name) else field._name\n'))
SEED('e04-error-by-name', 'E04', 'a field whose load key is the name of another field',
     'the field of an error is looked up among the names first', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(load_key='y')
         y = fields.Integer(load_key='x')
     try:
         A({'x': 1, 'y': 'a'})
     except oblate.ValidationError as e:
         assert e.errors[0].field is A.x
     ''', (E, '        return self.schema.__load_fields__.get(self._key, None)\n', '        return self.schema.__fields__.get(self._key) or self.schema.__load_fields__.get(self._key, None)\n'))
SEED('e04-error-schema-nested', 'E04', 'an error in a partial object behind another one',
     'a validation error carries the schema of its first error that has one, here of the previous operation', HEAD + '''
     class Keep(oblate.ValidationError):
         pass
     saved = []
     class A(oblate.Schema):
         x = fields.Any()
         @validate.field('x')
         def c(self, value, context):
             if not saved:
                 saved.append(oblate.FieldError('bad'))
             raise saved[0]
     got = []
     for _ in 'ab':
         try:
             A({'x': 1})
         except oblate.ValidationError as e:
             got.append(e.schema)
     assert got[0] is not got[1]
     ''', (E, '        self.schema = current_schema.get()\n        self._flatten_errors(errors)\n', '        self.schema = errors[0].schema if errors else current_schema.get()\n        self._flatten_errors(errors)\n'))
SEED('e04-unset-schema', 'E04', 'reading an unset field through get_value_for inside a validator of another schema',
     'the field-not-set error carries the schema being processed instead of the one read', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any(required=False)
     a = A({})
     class B(oblate.Schema):
         y = fields.Any()
         @validate.field('y')
         def c(self, value, context):
             try:
                 a.x
             except oblate.FieldNotSet as e:
                 assert e.schema is a, e.schema
             else:
                 raise ValueError('set')
     B({'y': 1})
     ''', (E, '        self.field = field\n        self.schema = schema\n', '        self.field = field\n        self.schema = current_schema.get(schema)\n'))
SEED('r01-unique-values', 'R01', 'two fields with the same value',
     'the automatic repr shows equal values only once', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any()
         y = fields.Any()
     assert 'y=1' in repr(A({'x': 1, 'y': 1})) and 'x=1' in repr(A({'x': 1, 'y': 1}))
     ''', (S, "(f'{name}={value}' for name, value in self._field_values.items())", "(f'{name}={value}' for value, name in {v: n for n, v in self._field_values.items()}.items())"))
SEED('r01-load-key', 'R01', 'a field with a load key of its own',
     'the automatic repr shows load keys', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any(load_key='k')
     assert repr(A({'k': 1})) == 'A(x=1)'
     ''', (S, "(f'{name}={value}' for name, value in self._field_values.items())", "(f'{self.__fields__[name].load_key}={value}' for name, value in self._field_values.items())"))
SEED('r01-none', 'R01', 'a field set to None or another false value',
     'the automatic repr leaves false values out', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any(none=True)
         y = fields.Any()
     assert 'x=None' in repr(A({'x': None, 'y': 0}))
     ''', (S, "for name, value in self._field_values.items()))", "for name, value in self._field_values.items() if value is not None))"))
SEED('r01-deferred-names', 'R01', 'a field without a value',
     'the automatic repr reads every field and stores a placeholder for those not set', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any()
         y = fields.Any(required=False)
     a = A({'x': 1})
     assert repr(a) == 'A(x=1)', repr(a)
     fails(lambda: a.y, oblate.FieldNotSet)
     ''', (S, "for name, value in self._field_values.items()))", "for name, value in ((n, self._field_values.setdefault(n, MISSING)) for n in self.__fields__)))"))
SEED('v04-verdict', 'V04', 'a validator returning a false value that is not None',
     'a validator object that returns False rejects', HEAD + '''
     class V(validate.Validator):
         def validate(self, value, context): return False
     class A(oblate.Schema):
         x = fields.Any(validators=[V()])
     assert A({'x': 1}).x == 1
     ''', (V, '        return self.validate(value, context)\n', '        if self.validate(value, context) is False:\n            raise ValueError(\'invalid value\')\n        return True\n'))
SEED('v04-wrapped', 'V04', 'a validator object that raises a field error with a state',
     'errors of validator objects are replaced by plain ones', HEAD + '''
     class V(validate.Validator):
         def validate(self, value, context): raise oblate.FieldError('bad', state=1)
     class A(oblate.Schema):
         x = fields.Any(validators=[V()])
     try:
         A({'x': 1})
     except oblate.ValidationError as e:
         assert e.errors[0].state == 1
     ''', (V, '        return self.validate(value, context)\n', '        from oblate.exceptions import FieldError\n        try:\n            return self.validate(value, context)\n        except FieldError as err:\n            raise FieldError(err.message)\n'))
SEED('v04-raw-inherited', 'V04', 'a subclass of a raw validator class that is not declared raw',
     'subclasses of raw validator classes are raw', HEAD + '''
     class R(validate.Validator, raw=True):
         def validate(self, value, context): pass
     class N(R):
         def validate(self, value, context): assert value == 1
     class A(oblate.Schema):
         x = fields.Integer(validators=[N()], strict=False)
     assert A({'x': '1'}).x == 1
     ''', (V, '        cls.__validator_is_raw__ = raw\n', "        cls.__validator_is_raw__ = raw or getattr(cls, '__validator_is_raw__', False)\n"))
SEED('v04-twice', 'V04', 'a validator whose verdict depends on how often it ran',
     'a rejecting validator is asked again before its error is raised', HEAD + '''
     n = []
     class V(validate.Validator):
         def validate(self, value, context):
             n.append(value)
             if len(n) == 1:
                 raise ValueError('first')
     class A(oblate.Schema):
         x = fields.Any(validators=[V()])
     fails(lambda: A({'x': 1}))
     ''', (V, '        return self.validate(value, context)\n', '        try:\n            return self.validate(value, context)\n        except ValueError:\n            return self.validate(value, context)\n'))
SEED('s12-exact-type', 'S12', 'a validator that raises a subclass of ValueError',
     'only exactly ValueError and AssertionError count as failures of validation', HEAD + '''
     class Mine(ValueError): pass
     class A(oblate.Schema):
         x = fields.Any()
         @validate.field('x')
         def c(self, value, context): raise Mine('bad')
     fails(lambda: A({'x': 1}))
     ''', (B, '                if isinstance(err, (AssertionError, ValueError)):\n', '                if type(err) not in (AssertionError, ValueError, FieldError):\n                    raise\n                if isinstance(err, (AssertionError, ValueError)):\n'))
SEED('p01-regex-last', 'P01', 'two regex validators used at the same time',
     'the regex validator keeps its last match on the class', HEAD + '''
     import re
     a, b = validate.Regex('a'), validate.Regex('b')
     class S(oblate.Schema):
         x = fields.String(validators=[a])
         y = fields.String(validators=[b])
     S({'x': 'a', 'y': 'b'})
     assert not any(hasattr(validate.Regex, n) or hasattr(v, n) for v in (a, b) for n in ('last', '_last'))
     ''', (V, '        if self._match(value) is None:\n', '        Regex._last = self._match(value)\n        if Regex._last is None:\n'))
