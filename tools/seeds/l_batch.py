B = 'oblate/fields/base.py'
CF = 'oblate/configs.py'
TV = 'oblate/type_validation.py'
S = 'oblate/schema.py'
V = 'oblate/validate.py'
HEAD = '''
     import typing as t
     import oblate
     from oblate import fields, validate

     def fails(f, exc=oblate.ValidationError):
         try:
             f()
         except exc as err:
             return err
         raise SystemExit('no failure')
     '''
SEED('s16-none-fallback', 'S16', 'None given as the value to fall back to for a field that is not set',
     'None is no longer accepted as a fallback of get_value_for', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(required=False)
     assert A({}).get_value_for('x', 1) == 1
     assert A({}).get_value_for('x', None) is None
     ''', (S, '            if default is not MISSING:\n                return default\n',
           '            if default is not MISSING and default is not None:\n                return default\n'))
SEED('s06-class-default', 'S06', 'a default that is a class made from the context and the field',
     'a default that is a class is stored instead of being called', HEAD + '''
     class Token:
         def __init__(self, ctx, field):
             self.field = field
     class A(oblate.Schema):
         x = fields.Any(default=Token)
     assert isinstance(A({}).x, Token)
     ''', (S, 'if callable(field._default) else', 'if callable(field._default) and not isinstance(field._default, type) else'))
SEED('s09-class-validator', 'S09', 'a validator that is a class',
     'validators that are classes do not run', HEAD + '''
     seen = []
     class Note:
         def __init__(self, schema, value, ctx):
             seen.append(value)
     class A(oblate.Schema):
         x = fields.Integer()
     A.x.add_validator(Note)
     A({'x': 3})
     assert seen == [3], seen
     ''', (B, '        for validator in validators:\n            try', '        for validator in validators:\n            if isinstance(validator, type):\n                continue\n            try'))
SEED('v02-or-nothing', 'V02', 'an or-validator without alternatives',
     'an or-validator without alternatives accepts everything', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(validators=[validate.Or()])
     fails(lambda: A({'x': 1}))
     ''', (V, '        passed = False\n        for validator', '        passed = not self._validators\n        for validator'))
SEED('t06-other-keys', 'T06', 'an undeclared key that is no string',
     'undeclared keys that are no strings are accepted', HEAD + '''
     class D(t.TypedDict):
         a: int
     class A(oblate.Schema):
         x = fields.TypedDict(D)
     A({'x': {'a': 1}})
     fails(lambda: A({'x': {'a': 1, 'b': 2}}))
     fails(lambda: A({'x': {'a': 1, 5: 2}}))
     ''', (TV, "                errors.append(f'Invalid key {key!r}')\n", "                if isinstance(key, str):\n                    errors.append(f'Invalid key {key!r}')\n"))
SEED('s18-copy-extras', 'S18', 'a field with extras that is copied',
     'copies of a field lose its extras', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(extras={'unit': 'm'})
     assert A.x.copy().extras == {'unit': 'm'}
     ''', (B, '        field = copy.copy(self)\n', '        field = copy.copy(self)\n        field.extras = {}\n'))
SEED('g01-direct-only', 'G01', 'a validation error class that derives from another custom one',
     'only classes that derive directly from ValidationError are accepted', HEAD + '''
     class A(oblate.ValidationError):
         pass
     class B(A):
         pass
     c = oblate.GlobalConfig()
     c.validation_error_cls = B
     assert c.validation_error_cls is B
     ''', (CF, 'if not issubclass(value, ValidationError):', 'if ValidationError not in (value, *value.__bases__):'))
SEED('s17-unknown-name', 'S17', 'a validator declared for a name that no field has',
     'a validator declared for an unknown field is dropped without a word', HEAD + '''
     def define():
         class A(oblate.Schema):
             x = fields.Integer()
             @validate.field('y')
             def check(self, value, ctx):
                 pass
     fails(define, TypeError)
     ''', (S, "                if not isinstance(field, Field):\n                    raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover\n",
           "                if not isinstance(field, Field):\n                    continue\n"))
