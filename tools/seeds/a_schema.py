S = 'oblate/schema.py'
B = 'oblate/fields/base.py'
C = 'oblate/contexts.py'
X = 'oblate/exceptions.py'

SEED('s03-rollback-only-validation', 'S03', 'an update of several fields where a later deserializer raises something else than a validation error',
     'the values stored by the earlier fields of the failed update stay', '''
     import oblate
     from oblate import fields
     class Bad(fields.Field):
         def value_load(self, value, context):
             raise KeyError('boom') if value == 'bad' else None
         def value_dump(self, value, context):
             return value
     class A(oblate.Schema):
         x = fields.Integer()
         y = Bad(required=False)
     a = A({'x': 1})
     try:
         a.update({'x': 2, 'y': 'bad'})
     except KeyError:
         pass
     assert a.x == 1, a.x
     ''',
     (S, '            self._field_values = old_values\n', '            if errors:\n                self._field_values = old_values\n'))

SEED('s02-first-validator-only', 'S02', 'a field with two validators that both reject the value',
     'the failures of the validators after the first failing one are missing from the report', '''
     import oblate
     from oblate import fields
     def one(schema, value, ctx):
         raise ValueError('one')
     def two(schema, value, ctx):
         raise ValueError('two')
     class A(oblate.Schema):
         x = fields.Integer(validators=[one, two])
     try:
         A({'x': 1})
     except oblate.ValidationError as e:
         assert e.raw() == {'x': ['one', 'two']}, e.raw()
     else:
         raise AssertionError
     ''',
     (B, '                errors.append(err)\n\n        return errors\n', '                errors.append(err)\n                break\n\n        return errors\n'))

SEED('s08-explicit-false-lost', 'S08', 'ignore_extra=False passed explicitly for a schema configured to ignore extras',
     'an explicit refusal of unknown keys is overridden by the configuration', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         class Config(oblate.SchemaConfig):
             ignore_extra = True
         x = fields.Integer(required=False)
     try:
         A({'zzz': 1}, ignore_extra=False)
     except oblate.ValidationError:
         pass
     else:
         raise AssertionError('unknown key accepted')
     ''',
     (S, "        if ignore_extra is MISSING:\n            ignore_extra = self.__config__.ignore_extra\n\n        fields = self.__load_fields__.copy()",
         "        ignore_extra = (ignore_extra is not MISSING and ignore_extra) or self.__config__.ignore_extra\n\n        fields = self.__load_fields__.copy()"))

SEED('s11-lazy-validator-name', 'S11', 'a validator failing at construction for a field whose load key differs from its name',
     'the error is reported under the attribute name, not the key of the data', '''
     import oblate
     from oblate import fields, validate
     class A(oblate.Schema):
         x = fields.Integer(load_key='X', validators=[validate.Range(3)])
     try:
         A({'X': 9})
     except oblate.ValidationError as e:
         assert list(e.raw()) == ['X'], e.raw()
     else:
         raise AssertionError
     ''',
     (S, '            field_token = current_field_key.set(field.load_key)\n            schema_token', '            field_token = current_field_key.set(field._name)\n            schema_token'))

SEED('s14-initialised-early', 'S14', 'a validator asking its load context whether this is an update during construction',
     'the schema claims to be initialised while its data is still being validated', '''
     import oblate
     from oblate import fields
     seen = []
     def check(schema, value, ctx):
         seen.append(ctx.is_update())
     class A(oblate.Schema):
         x = fields.Integer(validators=[check])
     A({'x': 1})
     assert seen == [False], seen
     ''',
     (S, "        for field, value, context, raw in validators:\n", "        self._context._initialized = not errors\n        for field, value, context, raw in validators:\n"),
     (S, "        self._context._initialized = True\n        self.__schema_post_init__()", "        self.__schema_post_init__()"))

SEED('s19-copy-context-original', 'S19', 'looking at the schema of the context of a copy',
     'the context of a copied schema belongs to the original', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer()
     a = A({'x': 1})
     b = a.copy()
     assert b.context.schema is b and a.context.schema is a
     ''',
     (S, "        schema._context = self._context._copy(schema=schema)\n", "        schema._context = self._context._copy(schema=self)\n"))

SEED('s16-falsy-default', 'S16', 'looking up an unset field with a default that is falsy',
     'the given default is not returned when it is false', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer(required=False)
     assert A({}).get_value_for('x', 0) == 0
     ''',
     (S, "            if default is not MISSING:\n                return default\n", "            if default is not MISSING and (default or default is None):\n                return default\n"))

SEED('s05-frozen-field-none', 'S05', 'assigning None to a frozen field',
     'a frozen field can be reset to None', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer(frozen=True, none=True)
     a = A({'x': 1})
     try:
         a.x = None
     except oblate.FrozenError:
         pass
     assert a.x == 1, a.x
     ''',
     (B, "        if self.frozen:\n            raise FrozenError(self)\n", "        if self.frozen and value is not None:\n            raise FrozenError(self)\n"))

SEED('s06-falsy-default-dropped', 'S06', 'an absent field whose default is None',
     'a default of None is not applied to an absent field', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer(none=True, default=None)
     assert A({}).x is None
     ''',
     (S, "                if field._default is not MISSING:\n", "                if field.default is not None:\n"))

SEED('s20-default-memoised', 'S20', 'two objects of one schema whose field has a default made by a callable',
     'the result of the first call replaces the declared default', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.List(default=lambda ctx, field: [])
     a, b = A({}), A({})
     assert a.x is not b.x
     ''',
     (S, """                    self._field_values[field._name] = field._default(self._context, field) \\
                                                      if callable(field._default) else field._default
""", """                    if callable(field._default):
                        field._default = field._default(self._context, field)
                    self._field_values[field._name] = field._default
"""))

SEED('s10-schema-token-late', 'S10', 'a construction whose data is refused before loading starts, then an error made by hand',
     'the ambient schema stays set after a failed construction', '''
     import oblate
     from oblate import fields
     from oblate.utils import current_schema
     class A(oblate.Schema):
         x = fields.Integer()
         def preprocess_data(self, data):
             raise KeyError('no')
     try:
         A({'x': 1})
     except KeyError:
         pass
     assert current_schema.get(None) is None
     ''',
     (S, """        try:
            self._field_values: Dict[str, Any] = {}
            self._context = SchemaContext(self, state=state)
            self._prepare_from_data(data, ignore_extra=ignore_extra)
        finally:
            current_schema.reset(token)
""", """        try:
            self._field_values: Dict[str, Any] = {}
            self._context = SchemaContext(self, state=state)
            self._prepare_from_data(data, ignore_extra=ignore_extra)
        except oblate.config.validation_error_cls:
            current_schema.reset(token)
            raise
        current_schema.reset(token)
"""))

SEED('s09-context-not-shared', 'S09', 'a raw validator leaving something in the state of the load context for a later validator',
     'raw validators get a context of their own at construction', '''
     import oblate
     from oblate import fields, validate
     got = []
     @validate.field('x', raw=True) if False else (lambda f: f)
     def nothing(*a):
         pass
     def raw(schema, value, ctx):
         ctx.state['seen'] = value
     def final(schema, value, ctx):
         got.append(ctx.state.get('seen'))
     class A(oblate.Schema):
         x = fields.Integer(strict=False)
         x.add_validator(raw, raw=True)
         x.add_validator(final)
     A({'x': '5'})
     assert got == ['5'], got
     ''',
     (S, "            validators.append((field, value, context, True))\n", "            validators.append((field, value, LoadContext(field=field, value=value, schema=self), True))\n"))

SEED('s09-raw-gets-final', 'S09', 'a field converting its input with a raw validator, set on an existing object',
     'at assignment raw validators do not run at all if a plain validator exists', '''
     import oblate
     from oblate import fields
     got = []
     def raw(schema, value, ctx):
         got.append(('raw', value))
     def final(schema, value, ctx):
         got.append(('final', value))
     class A(oblate.Schema):
         x = fields.Integer(strict=False)
         x.add_validator(raw, raw=True)
         x.add_validator(final)
     a = A({'x': 1})
     got.clear()
     a.x = '5'
     assert got == [('raw', '5'), ('final', 5)], got
     ''',
     (B, "        validators = self._raw_validators if raw else self._validators\n", "        update = context.is_update()\n        validators = self._raw_validators if raw and not (update and self._validators) else self._validators\n"))

SEED('s07-none-by-default', 'S07', 'None supplied for a field that does not allow it but is not required',
     'None is taken by optional fields that do not allow it', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer(required=False)
     try:
         A({'x': None})
     except oblate.ValidationError:
         pass
     else:
         raise AssertionError('None accepted')
     ''',
     (B, "        self.none = none\n", "        self.none = none or not required\n"))

