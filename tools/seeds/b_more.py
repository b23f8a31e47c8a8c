S = 'oblate/schema.py'
B = 'oblate/fields/base.py'
C = 'oblate/contexts.py'
X = 'oblate/exceptions.py'
G = 'oblate/configs.py'
P = 'oblate/fields/primitive.py'
N = 'oblate/fields/nesting.py'
T = 'oblate/type_validation.py'
V = 'oblate/validate.py'
R = 'oblate/fields/structs.py'

SEED('s13-setter-no-check', 'S13', 'setting the error class option to a plain exception class',
     'a class that is no validation error is taken as the error class', '''
     import oblate
     try:
         oblate.config.validation_error_cls = ValueError
     except TypeError:
         pass
     assert oblate.config.validation_error_cls is oblate.ValidationError
     ''',
     (G, "        if not issubclass(value, ValidationError):\n            raise TypeError('validation_error_cls must be a subclass of ValidationError')\n        return value",
         "        if not issubclass(value, ValidationError) and not issubclass(value, Exception):\n            raise TypeError('validation_error_cls must be a subclass of ValidationError')\n        return value"))

SEED('s01-validator-after-none', 'S01', 'a raw validator rejecting None at construction',
     'raw validators do not see a None', '''
     import oblate
     from oblate import fields
     def raw(schema, value, ctx):
         raise ValueError('never')
     class A(oblate.Schema):
         x = fields.Integer(none=True)
         x.add_validator(raw, raw=True)
     try:
         A({'x': None})
     except oblate.ValidationError:
         pass
     else:
         raise AssertionError
     ''',
     (S, "        if field._raw_validators and lazy_validation:\n", "        if field._raw_validators and lazy_validation and not (value is None and field.none):\n"))

SEED('s04-set-falsy-unchecked', 'S04', 'assignment of a rejected value that equals the current one',
     'an assignment of a value equal to the current one skips the checks', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer()
     a = A({'x': 1})
     try:
         a.x = 1.0
     except oblate.ValidationError:
         pass
     else:
         raise AssertionError
     ''',
     (B, "            errors = instance._process_field_value(self, value)\n", "            if instance._field_values.get(self._name, MISSING) == value:\n                return\n            errors = instance._process_field_value(self, value)\n"))

SEED('s04-stored-before-validators', 'S04', 'assignment of a value that a normal validator rejects',
     'the rejected value stays in the field', '''
     import oblate
     from oblate import fields, validate
     class A(oblate.Schema):
         x = fields.Integer(validators=[validate.Range(5)])
     a = A({'x': 1})
     try:
         a.x = 9
     except oblate.ValidationError:
         pass
     assert a.x == 1
     ''',
     (S, "            if not validator_errors:\n                self._field_values[name] = final_value\n", "            if not errors:\n                self._field_values[name] = final_value\n"))

SEED('s05-frozen-by-load-key', 'S05', 'an update of a frozen field that currently has no value',
     'a frozen field without a value can be set by an update', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer(frozen=True, required=False)
     a = A({})
     try:
         a.update({'x': 1})
     except oblate.FrozenError:
         pass
     assert a.get_value_for('x', None) is None
     ''',
     (S, "                    if field.frozen:\n                        raise FrozenError(field)\n", "                    if field.frozen and field._name in self._field_values:\n                        raise FrozenError(field)\n"),
     (S, "        if self.__config__.frozen:\n            raise FrozenError(self)\n\n        if ignore_extra", "        config = self.__config__\n        if config.frozen:\n            raise FrozenError(self)\n\n        if ignore_extra"))

SEED('s05-frozen-config-skipped', 'S05', 'assignment on a frozen schema to a field that has no value yet',
     'fields without value on a frozen schema can be assigned once', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         class Config(oblate.SchemaConfig):
             frozen = True
         x = fields.Integer(required=False)
     a = A({})
     try:
         a.x = 1
     except oblate.FrozenError:
         pass
     assert a.get_value_for('x', None) is None
     ''',
     (B, "        if instance.__config__.frozen:\n", "        if instance.__config__.frozen and self._name in instance._field_values:\n"))

SEED('s06-required-and-default', 'S06', 'a callable default on an absent field',
     'a callable default is called with the field first', '''
     import oblate
     from oblate import fields
     got = []
     def d(ctx, field):
         got.append((type(ctx).__name__, field))
         return 1
     class A(oblate.Schema):
         x = fields.Integer(default=d)
     a = A({})
     assert got[0][0] == 'SchemaContext', got
     a = A({})
     assert len(got) == 2
     ''',
     (S, "field._default(self._context, field) \\\n", "field._default(LoadContext(field=field, value=MISSING, schema=self), field) \\\n"))

SEED('s06-default-over-failure', 'S06', 'a supplied value that fails to load for a field with a default at construction, error formatting reading the field',
     'the default replaces a supplied None', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer(none=True, default=5)
     assert A({'x': None}).x is None
     ''',
     (S, "        for key, field in fields.items():\n            token", "        fields.update({f.load_key: f for f in self.__load_fields__.values()\n                       if f.has_default() and self._field_values.get(f._name) is None})\n        for key, field in fields.items():\n            token"))

SEED('s07-raw-skipped-none', 'S07', 'None assigned to a field with a raw validator that rejects it',
     'None is stored although a raw validator rejected it', '''
     import oblate
     from oblate import fields
     def raw(schema, value, ctx):
         if ctx.is_update():
             raise ValueError('never')
     class A(oblate.Schema):
         x = fields.Integer(none=True)
         x.add_validator(raw, raw=True)
     a = A({'x': 1})
     try:
         a.x = None
     except oblate.ValidationError:
         pass
     assert a.x == 1
     ''',
     (B, "        for validator in validators:\n            try:\n                validator(context.schema", "        for validator in validators:\n            if value is None and context.is_update():\n                continue\n            try:\n                validator(context.schema"))

SEED('s08-update-extra-config', 'S08', 'an update with ignore_extra=True on a schema configured to refuse extras, with an unknown key',
     'the argument of the update is ignored', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer()
     a = A({'x': 1})
     a.update({'x': 2, 'zzz': 1}, ignore_extra=True)
     assert a.x == 2
     class B(oblate.Schema):
         class Config(oblate.SchemaConfig):
             ignore_extra = True
         x = fields.Integer()
     b = B({'x': 1})
     try:
         b.update({'y': 2}, ignore_extra=False)
     except oblate.ValidationError:
         pass
     else:
         raise AssertionError
     ''',
     (S, "        if ignore_extra is MISSING:\n            ignore_extra = self.__config__.ignore_extra\n\n        fields = self.__load_fields__\n",
         "        if ignore_extra is MISSING or not ignore_extra:\n            ignore_extra = self.__config__.ignore_extra\n\n        fields = self.__load_fields__\n"))

SEED('s10-key-leaks-frozen', 'S10', 'an assignment whose deserializer raises an unexpected exception',
     'the ambient field key stays set after such an assignment', '''
     import oblate
     from oblate import fields
     from oblate.utils import current_field_key
     class F(fields.Field):
         def value_load(self, value, context):
             if value == 2:
                 raise KeyError
             return value
         def value_dump(self, value, context):
             return value
     class A(oblate.Schema):
         x = F()
     a = A({'x': 1})
     try:
         a.x = 2
     except KeyError:
         pass
     assert current_field_key.get(None) is None
     ''',
     (B, "            if errors:\n                raise oblate.config.validation_error_cls(errors)\n        finally:\n            current_schema.reset(schema_token)\n            current_field_key.reset(field_name)\n",
         "            current_field_key.reset(field_name)\n            if errors:\n                raise oblate.config.validation_error_cls(errors)\n        finally:\n            current_schema.reset(schema_token)\n"))

SEED('s10-load-context-leaks', 'S10', 'a None refused or taken at assignment, then an error made by hand',
     'the ambient value context of a None stays set', '''
     import oblate
     from oblate import fields
     from oblate.utils import current_context
     class A(oblate.Schema):
         x = fields.Integer(none=True)
     a = A({'x': 1})
     a.x = None
     assert current_context.get(None) is None
     ''',
     (S, "        finally:\n            current_context.reset(token)\n\n        return errors", "        finally:\n            if value is not None:\n                current_context.reset(token)\n\n        return errors"))

SEED('s11-set-schema-outer', 'S11', 'an assignment to a nested object from a validator of the outer schema',
     'the ambient schema during an assignment inside another operation is the outer one', '''
     import oblate
     from oblate import fields
     class In(oblate.Schema):
         y = fields.Integer()
     inner = In({'y': 1})
     got = []
     def check(schema, value, ctx):
         try:
             inner.y = 'bad'
         except oblate.ValidationError as e:
             got.append((e.schema, e.errors[0].schema))
     class A(oblate.Schema):
         x = fields.Integer(validators=[check])
     A({'x': 1})
     assert got == [(inner, inner)], got
     ''',
     (B, "        schema_token = current_schema.set(instance)\n", "        schema_token = current_schema.set(current_schema.get(instance))\n"))

SEED('s11-context-in-lazy', 'S11', 'a validator failing at construction, looking at the context of the error',
     'errors of validators run at construction carry the value context of another value', '''
     import oblate
     from oblate import fields, validate
     class A(oblate.Schema):
         x = fields.Integer(validators=[validate.Range(3)])
         y = fields.Integer(validators=[validate.Range(3)])
     try:
         A({'x': 9, 'y': 8})
     except oblate.ValidationError as e:
         assert [x.context.value for x in e.errors] == [9, 8], [x.context and x.context.value for x in e.errors]
     ''',
     (S, "            ctx_token = current_context.set(context)\n            field_token", "            ctx_token = current_context.set(validators[-1][2])\n            field_token"))

SEED('s14-copy-context-shared', 'S14', 'a failed construction seen from an error formatting hook after the failure',
     'the schema reports to be initialised although its construction failed', '''
     import oblate
     from oblate import fields
     seen = []
     class A(oblate.Schema):
         x = fields.Integer()
         def preprocess_data(self, data):
             seen.append(self)
             return data
     try:
         A({'x': 'a'})
     except oblate.ValidationError:
         pass
     assert not seen[0].context.is_initialized()
     ''',
     (S, "        if errors:\n            raise oblate.config.validation_error_cls(errors)\n\n        self._context._initialized = True\n", "        self._context._initialized = True\n        if errors:\n            raise oblate.config.validation_error_cls(errors)\n\n"))

SEED('s14-hook-before-status', 'S14', 'a post-init hook that asks whether the schema is initialised',
     'the hook runs before the status changes', '''
     import oblate
     from oblate import fields
     seen = []
     class A(oblate.Schema):
         x = fields.Integer()
         def __schema_post_init__(self):
             seen.append(self.context.is_initialized())
     A({'x': 1})
     assert seen == [True], seen
     ''',
     (S, "        self._context._initialized = True\n        self.__schema_post_init__()", "        self.__schema_post_init__()\n        self._context._initialized = True"))

SEED('s15-falsy-value-dumped', 'S15', 'dumping a falsy value of a field whose serializer converts',
     'falsy values bypass the serializer', '''
     import oblate
     from oblate import fields
     class F(fields.Field):
         def value_load(self, value, context):
             return value
         def value_dump(self, value, context):
             return f'<{value}>'
     class A(oblate.Schema):
         x = F()
     assert A({'x': 0}).dump() == {'x': '<0>'}
     ''',
     (S, "                    out[field.dump_key] = field.value_dump(value, context)\n", "                    out[field.dump_key] = field.value_dump(value, context) if value else value\n"),
     (S, "        out: Dict[str, Any] = {}\n", "        out: Dict[str, Any] = dict()\n"))

SEED('s16-set-by-load-key', 'S16', 'looking up by load key when another field has that attribute name',
     'None values are reported as not set', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer(none=True)
     assert A({'x': None}).get_value_for('x', 5) is None
     ''',
     (S, "        try:\n            return self._field_values[field._name]\n        except KeyError:\n            if default", "        try:\n            value = self._field_values[field._name]\n            if value is None and default is not MISSING:\n                raise KeyError(field_name)\n            return value\n        except KeyError:\n            if default"))

SEED('s17-parent-altered', 'S17', 'a subclass adding a field, then using the parent',
     'a field added by a subclass appears in the parent', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer()
     class B(A):
         y = fields.Integer()
     assert list(A.__fields__) == ['x']
     A({'x': 1}).dump()
     ''',
     (S, "            cls.__fields__ = cls.__fields__.copy()\n", "            cls.__fields__ = cls.__fields__\n"))

SEED('s18-copy-shares-raw', 'S18', 'adding a raw validator to a copied field',
     'the raw validators of a copied field are those of the original', '''
     import oblate
     from oblate import fields
     f = fields.Integer()
     g = f.copy()
     g.add_validator(lambda s, v, c: None, raw=True)
     assert not list(f.walk_validators())
     ''',
     (B, "        field._raw_validators = self._raw_validators.copy()\n", "        field._raw_validators = self._raw_validators\n"))

SEED('s18-copy-bound', 'S18', 'a field copied before binding and one copied after',
     'the copy of a bound field keeps the name of the original', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer()
     g = A.x.copy()
     try:
         g.name
     except RuntimeError:
         pass
     else:
         raise AssertionError(g.name)
     ''',
     (B, "        self._name: str = MISSING\n        self._schema: Type[Schema] = MISSING\n", "        self._name: str = getattr(self, '_name', MISSING)\n        self._schema: Type[Schema] = MISSING\n"))

SEED('s19-state-shared', 'S19', 'changing the state of a copy',
     'the copy of a schema has the very state of the original', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer()
     a = A({'x': 1}, state={'n': 1})
     b = a.copy()
     b.context.state['n'] = 2
     assert a.context.state == {'n': 1}
     ''',
     (C, "        context = self.__class__(schema=schema, state=copy.copy(self.state))\n", "        context = self.__class__(schema=schema, state=self.state)\n"))

SEED('s20-input-mutated', 'S20', 'a caller that passes a dict and uses it again',
     'the data given to a nested object field is emptied', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         x = fields.Integer()
     d = {'x': 1, 'y': 2}
     try:
         A(d)
     except oblate.ValidationError:
         pass
     assert d == {'x': 1, 'y': 2}
     A(d, ignore_extra=True)
     assert d == {'x': 1, 'y': 2}, d
     ''',
     (S, "        fields = self.__load_fields__.copy()\n", "        fields = self.__load_fields__.copy()\n        if ignore_extra and isinstance(data, dict):\n            for key in data.keys() - fields.keys():\n                del data[key]\n"))

SEED('s21-config-parent-lost', 'S21', 'a schema two levels below the one declaring the configuration, with several bases',
     'the configuration of a base is taken from the last base whatever it is', '''
     import oblate
     from oblate import fields
     class A(oblate.Schema):
         class Config(oblate.SchemaConfig):
             frozen = True
         x = fields.Integer()
     class B(A):
         y = fields.Integer()
     class C(B):
         z = fields.Integer()
     assert C.__config__ is A.__config__
     ''',
     (S, "                if issubclass(base, Schema) and hasattr(base, '__config__'):\n", "                if issubclass(base, Schema) and '__config__' in vars(base) and 'Config' in vars(base):\n"))

