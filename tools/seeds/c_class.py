S = 'oblate/schema.py'
B = 'oblate/fields/base.py'
C = 'oblate/contexts.py'
X = 'oblate/exceptions.py'
G = 'oblate/configs.py'
V = 'oblate/validate.py'

SEED('s21-first-attribute', 'S21', 'a configuration class declared after another nested class in the body',
     'only the first nested class of a body is considered as its configuration', '''
     import oblate
     class A(oblate.Schema):
         class Meta:
             pass
         class Config(oblate.SchemaConfig):
             ignore_extra = True
     A({'unknown': 1})
     ''',
     (S, "            if inspect.isclass(value) and issubclass(value, SchemaConfig):\n                found = True\n                config = value\n                break\n",
         "            if inspect.isclass(value):\n                if issubclass(value, SchemaConfig):\n                    found = True\n                    config = value\n                break\n"))

SEED('s21-inherited-slots', 'S21', 'a subclass of a schema whose configuration turns slots off, without a configuration of its own',
     'slots are decided by the default configuration, not by the governing one', '''
     import oblate
     class A(oblate.Schema):
         class Config(oblate.SchemaConfig):
             slotted = False
     class Plain:
         __slots__ = ()
     class D(A):
         pass
     assert '__slots__' not in vars(D)
     ''',
     (S, "        if config.slotted:\n            attrs.setdefault('__slots__', ())",
         "        if config.slotted if found else SchemaConfig.slotted:\n            attrs.setdefault('__slots__', ())"))

SEED('s21-repr-inherited-config', 'S21', 'a configuration that wants no repr, inherited by a subclass',
     'the automatic repr is added where the inherited configuration turns it off', '''
     import oblate
     class A(oblate.Schema):
         class Config(oblate.SchemaConfig):
             add_repr = False
     class D(A):
         pass
     assert '__repr__' not in vars(D)
     assert '__repr__' not in vars(A)
     ''',
     (S, "        attrs['__config__'] = config\n",
         "        if found or config.add_repr:\n            attrs['__config__'] = config\n        else:\n            attrs['__config__'] = type('Config', (config,), {'add_repr': True})\n"))

SEED('s18-bind-name-only', 'S18', 'one field object declared in a second schema under the same name',
     'a field declared again under the same name is rebound to the other schema silently', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer()
     f = A.x
     try:
         class D(oblate.Schema):
             x = f
     except RuntimeError:
         pass
     assert A.x.schema is A
     class E(oblate.Schema):
         y = fields.Integer()
     g = E.y
     try:
         class F(E):
             z = g
     except RuntimeError:
         pass
     assert E.y.name == 'y'
     ''',
     (B, "        if self._is_bound():\n            raise RuntimeError(f\"Field {schema",
         "        if self._is_bound() and not issubclass(schema, self._schema):\n            raise RuntimeError(f\"Field {schema"))

SEED('s18-bind-before-check', 'S18', 'a refused second binding whose exception is caught',
     'a refused binding has already renamed the field', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer()
     f = A.x
     try:
         class D(oblate.Schema):
             other = f
     except RuntimeError:
         pass
     else:
         raise AssertionError
     assert A.x.name == 'x'
     assert A({'x': 1}).x == 1
     ''',
     (B, "        if self._is_bound():\n            raise RuntimeError(f\"Field {schema.__name__}.{name} is already bound to {self._schema.__name__}.{self._name}\")\n\n        self._name = name\n",
         "        bound, bound_name = self._is_bound(), self._name\n        self._name = name\n        if bound:\n            raise RuntimeError(f\"Field {schema.__name__}.{name} is already bound to {self._schema.__name__}.{bound_name}\")\n\n"))

SEED('s18-copy-loses-raw', 'S18', 'copying a field that has raw validators',
     'the copy of a field has no raw validators', '''
     import oblate
     from oblate import fields, validate
     class NotOne(validate.Validator, raw=True):
         def validate(self, value, ctx):
             assert value != 1
     class A(oblate.Schema):
         x = fields.Integer(validators=[NotOne()])
     class D(oblate.Schema):
         x = A.x.copy()
     try:
         D({'x': 1})
     except oblate.ValidationError:
         pass
     else:
         raise AssertionError
     ''',
     (B, "        field._raw_validators = self._raw_validators.copy()\n", "        field._raw_validators = []\n"))

SEED('s18-copy-default-lost', 'S18', 'copying a field with a default',
     'a copied field is given the value None as default', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer(required=False)
     class D(oblate.Schema):
         x = A.x.copy()
     assert D({}).get_value_for('x', 'unset') == 'unset'
     ''',
     (B, "        field._unbind()\n        return field\n", "        field._default = self.default\n        field._unbind()\n        return field\n"))

SEED('v03-remove-ignores-marking', 'V03', 'removing a validator that is marked raw without the raw argument',
     'removing looks at the argument, not at the marking of the validator', '''
     import oblate
     from oblate import fields, validate
     class NotOne(validate.Validator, raw=True):
         def validate(self, value, ctx):
             assert value != 1
     v = NotOne()
     f = fields.Integer(validators=[v])
     f.remove_validator(v)
     assert list(f.walk_validators()) == []
     ''',
     (B, "        raw = getattr(validator, '__validator_is_raw__', raw)\n        try:\n",
         "        raw = raw or getattr(validator, 'raw', False)\n        try:\n"))

SEED('v03-raw-argument-wins', 'V03', 'a validator marked normal that is added with raw=True',
     'the raw argument overrides the marking of the validator', '''
     import oblate
     from oblate import fields, validate
     class Check(validate.Validator):
         def validate(self, value, ctx):
             assert value != 1
     v = Check()
     f = fields.Integer()
     f.add_validator(v, raw=True)
     assert list(f.walk_validators(raw=False)) == [v]
     ''',
     (B, "        raw = getattr(validator, '__validator_is_raw__', raw)\n        self._raw_validators.append(",
         "        raw = raw or getattr(validator, '__validator_is_raw__', raw)\n        self._raw_validators.append("))

SEED('v03-clear-false', 'V03', 'clearing with raw=False',
     'clearing only the normal validators clears the raw ones as well', '''
     import oblate
     from oblate import fields, validate
     class NotOne(validate.Validator, raw=True):
         def validate(self, value, ctx):
             assert value != 1
     v = NotOne()
     f = fields.Integer(validators=[v])
     f.add_validator(lambda *a: None)
     f.clear_validators(raw=False)
     assert list(f.walk_validators()) == [v]
     ''',
     (B, "        if raw is MISSING:\n            self._validators.clear()\n            self._raw_validators.clear()\n",
         "        if raw is MISSING or not raw:\n            self._validators.clear()\n            self._raw_validators.clear()\n"))

SEED('s17-validator-on-parent', 'S17', 'a validator in the body of a subclass that names an inherited field by the field object',
     'a validator of a subclass given the field object of the parent also runs in the parent', '''
     import oblate
     from oblate import fields, validate
     class A(oblate.Schema):
         x = fields.Integer()
     class D(A):
         @validate.field(A.x)
         def check(self, value, ctx):
             assert value != 1
     A({'x': 1})
     ''',
     (S, "                field = member.__validator_field__\n", "                field = member.__validator_field__\n                if isinstance(field, Field) and field._schema in cls.__mro__[1:]:\n                    field.add_validator(member)\n                    continue\n"))

SEED('s13-class-default', 'S13', 'a configuration object of which the option is set twice',
     'the option can only be set once', '''
     import oblate
     class E1(oblate.ValidationError):
         pass
     class E2(oblate.ValidationError):
         pass
     oblate.config.validation_error_cls = E1
     oblate.config.validation_error_cls = oblate.ValidationError
     assert oblate.config.validation_error_cls is oblate.ValidationError
     ''',
     (G, "        instance._values[self._name] = value\n",
         "        if instance._values.get(self._name, self._default) in (self._default, value):\n            instance._values[self._name] = value\n"))

SEED('s13-stored-before-check', 'S13', 'setting the option to something that is refused',
     'a refused option is stored nevertheless', '''
     import oblate
     try:
         oblate.config.validation_error_cls = ValueError
     except TypeError:
         pass
     assert oblate.config.validation_error_cls is oblate.ValidationError
     ''',
     (G, "        if self._setter:\n            value = self._setter(instance, value)\n\n        instance._values[self._name] = value\n",
         "        instance._values[self._name] = value\n        if self._setter:\n            instance._values[self._name] = self._setter(instance, value)\n"))
