B = 'oblate/fields/base.py'
CF = 'oblate/configs.py'
CX = 'oblate/contexts.py'
E = 'oblate/exceptions.py'
PR = 'oblate/fields/primitive.py'
ST = 'oblate/fields/structs.py'
N = 'oblate/fields/nesting.py'
TY = 'oblate/fields/typings.py'
TV = 'oblate/type_validation.py'
V = 'oblate/validate.py'
S = 'oblate/schema.py'
U = 'oblate/utils.py'
HEAD = '''
     import typing as t
     import oblate
     from oblate import fields, validate

     def fails(f, exc=oblate.ValidationError):
         try:
             f()
         except exc as err:
             return err
         raise SystemExit('no failure')
     '''
SEED('s01-accepted-before', 'S01', 'the very same object validated a second time after it changed',
     'validators are skipped for an object the field accepted before', HEAD + '''
     class A(oblate.Schema):
         x = fields.List(int, validators=[validate.Length(max=1)])
     v = [1]
     A({'x': v})
     v.append(2)
     fails(lambda: A({'x': v}))
     ''', (B, "        '_raw_validators',\n", "        '_raw_validators',\n        '_accepted',\n"),
     (B, '        self._unbind()\n\n        if validators', '        self._accepted: Any = MISSING\n        self._unbind()\n\n        if validators'),
     (B, '        errors: List[FieldError] = []\n\n        for validator in validators:\n',
      '        errors: List[FieldError] = []\n\n        if not raw and value is self._accepted:\n            return errors\n\n        for validator in validators:\n'),
     (B, '                errors.append(err)\n\n        return errors\n', '                errors.append(err)\n\n        if not raw and not errors and validators:\n            self._accepted = value\n\n        return errors\n'))
SEED('s02-report-capped', 'S02', 'more than fifty failing entries',
     'missing fields are no longer reported after fifty errors', HEAD + '''
     ns = {f'x{i}': fields.Integer() for i in range(60)}
     A = type(oblate.Schema)('A', (oblate.Schema,), ns)
     err = fails(lambda: A({}))
     assert len(err.errors) == 60, len(err.errors)
     ''', (S, '                if field.required:\n', '                if field.required and len(errors) < 50:\n'))
SEED('s02-update-stops-unknown', 'S02', 'an update with an unknown key followed by an invalid value',
     'update stops at the first unknown key', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer()
     a = A({'x': 1})
     err = fails(lambda: a.update({'u': 1, 'x': 'no'}))
     assert set(err.raw()) == {'u', 'x'}, err.raw()
     ''', (S, "                    if not ignore_extra:\n                        errors.append(FieldError(f'Invalid or unknown field.'))\n                else:\n                    if field.frozen",
           "                    if not ignore_extra:\n                        errors.append(FieldError(f'Invalid or unknown field.'))\n                        break\n                else:\n                    if field.frozen"))
SEED('s05-empty-update', 'S05', 'an update of a frozen schema with an empty mapping',
     'an empty update of a frozen schema is accepted', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer()
         class Config(oblate.SchemaConfig):
             frozen = True
     a = A({'x': 1})
     fails(lambda: a.update({}), oblate.FrozenError)
     ''', (S, '        if self.__config__.frozen:\n            raise FrozenError(self)\n\n        if ignore_extra', '        if self.__config__.frozen and data:\n            raise FrozenError(self)\n\n        if ignore_extra'))
SEED('s05-frozen-unset', 'S05', 'assignment to a frozen field that has no value',
     'a frozen field without a value can be set', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(frozen=True, required=False)
     a = A({})
     def put(): a.x = 3
     fails(put, oblate.FrozenError)
     ''', (B, '        if self.frozen:\n            raise FrozenError(self)\n', '        if self.frozen and self._name in instance._field_values:\n            raise FrozenError(self)\n'))
SEED('s06-default-replaces-none', 'S06', 'None given for a field with a default that does not allow None',
     'a default replaces a None that is not allowed', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(default=3)
     fails(lambda: A({'x': None}))
     ''', (S, '                if not field.none:\n', '                if field._default is not MISSING and not callable(field._default):\n                    self._field_values[name] = field._default\n                elif not field.none:\n'))
SEED('s08-hidden-keys', 'S08', 'an unknown key that starts with an underscore',
     'unknown keys with a leading underscore are ignored', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer()
     fails(lambda: A({'x': 1, '_y': 2}))
     ''', (S, "                if not ignore_extra:\n                    errors.append(FieldError(f'Invalid or unknown field.'))\n            else:\n                # See",
           "                if not ignore_extra and not str(key).startswith('_'):\n                    errors.append(FieldError(f'Invalid or unknown field.'))\n            else:\n                # See"))
SEED('s08-name-accepted', 'S08', 'the attribute name given for a field with another load key, in an update',
     'update accepts the attribute name of a field as well', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(load_key='k')
     a = A({'k': 1})
     fails(lambda: a.update({'x': 2}))
     assert a.x == 1
     ''', (S, '                    field = fields[key]\n', '                    field = fields[key] if key in fields else self.__fields__[key]\n'))
SEED('s09-validators-before-defaults', 'S09', 'a validator that reads another field which takes its default',
     'validators run before defaults are set', HEAD + '''
     seen = []
     class A(oblate.Schema):
         x = fields.Integer()
         y = fields.Integer(default=5)
         @validate.field(x)
         def check(self, value, context):
             seen.append(self.get_value_for('y', None))
     A({'x': 1})
     assert seen == [5], seen
     ''', (S, '        for key, field in fields.items():\n            token = current_field_key.set(key)\n',
           '        for field, value, context, raw in validators:\n            if not fields:\n                break\n            ctx_token = current_context.set(context)\n            field_token = current_field_key.set(field.load_key)\n            try:\n                errors.extend(field._run_validators(value, context, raw=raw))\n            finally:\n                current_context.reset(ctx_token)\n                current_field_key.reset(field_token)\n        if fields:\n            validators = []\n\n        for key, field in fields.items():\n            token = current_field_key.set(key)\n'))
SEED('s10-none-leaks', 'S10', 'None given for a field while an outer operation is running',
     'the value context stays set after a None was stored', HEAD + '''
     from oblate.utils import current_context
     class A(oblate.Schema):
         x = fields.Integer(none=True)
     A({'x': None})
     assert current_context.get(None) is None
     ''', (S, '        finally:\n            current_context.reset(token)\n\n        return errors\n',
           '        finally:\n            if value is not None or not lazy_validation:\n                current_context.reset(token)\n\n        return errors\n'))
SEED('s11-default-key', 'S11', 'a callable default that fails on a field with a load key of its own',
     'errors of missing fields carry the attribute name', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(load_key='k')
     assert set(fails(lambda: A({})).raw()) == {'k'}
     ''', (S, '        for key, field in fields.items():\n            token = current_field_key.set(key)\n', '        for key, field in fields.items():\n            token = current_field_key.set(field._name)\n'))
SEED('s12-swallowed-lookup', 'S12', 'a deserializer that raises KeyError while extras are ignored',
     'a KeyError of user code counts as an unknown key', HEAD + '''
     class F(fields.Any):
         def value_load(self, value, context):
             return {}[value]
     class A(oblate.Schema):
         x = F()
     fails(lambda: A({'x': 1}, ignore_extra=True), KeyError)
     ''', (S, '                field = fields.pop(key)\n            except KeyError:\n', '                field = fields.pop(key)\n                errors.extend(self._process_field_value(field, value, validators))\n            except KeyError:\n'),
     (S, '''            else:
                # See comment in _process_field_values() for explanation on how
                # validators are handled.
                process_errors = self._process_field_value(field, value, validators)
                errors.extend(process_errors)
            finally:''', '''            finally:'''))
SEED('s12-dump-lookup', 'S12', 'a serializer that raises KeyError',
     'a KeyError of a serializer leaves the field out of the dump', HEAD + '''
     class F(fields.Any):
         def value_dump(self, value, context):
             return {}[value]
     class A(oblate.Schema):
         x = F()
     fails(lambda: A({'x': 1}).dump(), KeyError)
     ''', (S, '                except (ValueError, AssertionError, FieldError) as err:\n                    if not isinstance(err, FieldError):\n                        err = FieldError._from_standard_error(err, schema=self, field=field, value=value)\n                    errors.append(err)\n                finally:\n                    current_field_key.reset(field_token)',
           '                except KeyError:\n                    continue\n                except (ValueError, AssertionError, FieldError) as err:\n                    if not isinstance(err, FieldError):\n                        err = FieldError._from_standard_error(err, schema=self, field=field, value=value)\n                    errors.append(err)\n                finally:\n                    current_field_key.reset(field_token)'))
SEED('s12-subclass', 'S12', 'a validator that raises a subclass of ValueError',
     'subclasses of ValueError raised by validators escape', HEAD + '''
     def check(schema, value, context):
         b'\\\\xff'.decode('ascii') if False else bytes([255]).decode('ascii')
     class A(oblate.Schema):
         x = fields.Integer(validators=[check])
     fails(lambda: A({'x': 1}))
     ''', (B, '                if isinstance(err, (AssertionError, ValueError)):\n', '                if isinstance(err, UnicodeError):\n                    raise\n                if isinstance(err, (AssertionError, ValueError)):\n'))
SEED('s13-class-level', 'S13', 'the error class is configured after the schema class was defined',
     'assignment raises the error class configured when the field was bound', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer()
     class Mine(oblate.ValidationError):
         pass
     a = A({'x': 1})
     oblate.config.validation_error_cls = Mine
     def put(): a.x = 'no'
     assert type(fails(put)) is Mine
     ''', (B, "        '_raw_validators',\n", "        '_raw_validators',\n        '_error_cls',\n"),
     (B, '        self._name = name\n        self._schema = schema\n', '        self._name = name\n        self._schema = schema\n        self._error_cls = oblate.config.validation_error_cls\n'),
     (B, '                raise oblate.config.validation_error_cls(errors)\n', '                raise self._error_cls(errors)\n'))
SEED('s14-hook-on-copy', 'S14', 'copying a schema with a post-init hook',
     'the post-init hook runs again on copies', HEAD + '''
     runs = []
     class A(oblate.Schema):
         x = fields.Integer()
         def __schema_post_init__(self):
             runs.append(1)
     A({'x': 1}).copy()
     assert runs == [1]
     ''', (S, '        schema._context = self._context._copy(schema=schema)\n', '        schema._context = self._context._copy(schema=schema)\n        schema.__schema_post_init__()\n'))
SEED('s15-none-not-dumped', 'S15', 'a field that holds None and has a serializer of its own for it',
     'None is dumped as it is, without the serializer', HEAD + '''
     class F(fields.Any):
         def value_dump(self, value, context):
             return 'nothing' if value is None else value
     class A(oblate.Schema):
         x = F(none=True)
     assert A({'x': None}).dump() == {'x': 'nothing'}
     ''', (S, '                    out[field.dump_key] = field.value_dump(value, context)\n', '                    out[field.dump_key] = None if value is None else field.value_dump(value, context)\n'))
SEED('s15-include-load-key', 'S15', 'include naming the load key of a field',
     'include also selects fields by load key', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(load_key='y')
         y = fields.Integer(load_key='x')
     assert A({'y': 1, 'x': 2}).dump(include=['x']) == {'x': 1}
     ''', (S, '            fields = fields.intersection(set(include))\n', '            fields = {name for name in fields if name in include or self.__fields__[name].load_key in include}\n'))
SEED('s16-load-key-first', 'S16', 'a field whose load key is the name of another field',
     'names are looked up among the load keys first', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(load_key='y')
         y = fields.Integer(load_key='x')
     a = A({'y': 1, 'x': 2})
     assert a.x == 1 and a.y == 2
     ''', (S, '            return self.__fields__[name]\n        except KeyError:\n            try:\n                return self.__load_fields__[name]\n',
           '            return self.__load_fields__[name]\n        except KeyError:\n            try:\n                return self.__fields__[name]\n'))
SEED('s19-empty-shared', 'S19', 'copying a schema without any value',
     'copies of a schema without values share its values', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(required=False)
     a = A({})
     b = a.copy()
     b.x = 1
     assert a.get_value_for('x', None) is None
     ''', (S, '        schema._field_values = self._field_values.copy()\n', '        schema._field_values = self._field_values and self._field_values.copy()\n'))
SEED('s20-length-message', 'S20', 'a length validator that fails more than once',
     'a failing length validator changes its own message', HEAD + '''
     v = validate.Length(max=1)
     class A(oblate.Schema):
         x = fields.List(validators=[v])
     one = str(fails(lambda: A({'x': [1, 2]})).raw())
     fails(lambda: A({'x': [1, 2, 3]}))
     assert str(fails(lambda: A({'x': [1, 2]})).raw()) == one
     ''', (V, '        length = len(value)\n        min, max = self._min, self._max\n', "        length = len(value)\n        min, max = self._min, self._max\n        if max is not MISSING and length > max + 1:\n            self._msg = f'{self._msg} (not {length})'\n"))
SEED('s21-config-name', 'S21', 'a configuration class with a name other than Config',
     'only a configuration class named Config is found', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer()
         class Settings(oblate.SchemaConfig):
             frozen = True
     assert A.__config__.frozen
     ''', (S, '        for _, value in attrs.items():\n', "        for _, value in [(k, v) for k, v in attrs.items() if k == 'Config']:\n"))
SEED('t01-str-subclass', 'T01', 'an instance of a subclass of str',
     'instances of subclasses of str are replaced by plain strings', HEAD + '''
     class X(str):
         pass
     class A(oblate.Schema):
         s = fields.String()
     x = X('a')
     assert A({'s': x}).s is x
     ''', (PR, '            except Exception:\n                raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value) from None\n        else:\n            return value\n\n    def _get_default_error_message(self, error_code: Any, context: ErrorContext) -> Union[FieldError, str]:\n        if error_code == self.ERR_INVALID_DATATYPE:\n            return \'Value must be a string\'',
           '            except Exception:\n                raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value) from None\n        else:\n            return value if type(value) is str else str(value)\n\n    def _get_default_error_message(self, error_code: Any, context: ErrorContext) -> Union[FieldError, str]:\n        if error_code == self.ERR_INVALID_DATATYPE:\n            return \'Value must be a string\''))
SEED('t02-bool-lower', 'T02', 'custom true values with upper-case letters',
     'the boolean field compares in lower case', HEAD + '''
     class A(oblate.Schema):
         b = fields.Boolean(strict=False, true_values=['OUI'])
     assert A({'b': 'OUI'}).b is True
     ''', (PR, '            if string in self._true_values:\n', '            if string.lower() in self._true_values:\n'))
SEED('t03-first-error', 'T03', 'a list with two items of the wrong type',
     'a list field reports only the first offending item', HEAD + '''
     class A(oblate.Schema):
         x = fields.List(int)
     assert len(fails(lambda: A({'x': ['a', 'b']})).errors) == 2
     ''', (ST, "        if not isinstance(value, list):\n            raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)\n        if self._tp is not None:\n            validated, errors = self._tp.validate('root', value)\n            if not validated:\n                metadata = {'type_validation_fail_errors': errors}",
           "        if not isinstance(value, list):\n            raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)\n        if self._tp is not None:\n            validated, errors = self._tp.validate('root', value)\n            if not validated:\n                metadata = {'type_validation_fail_errors': errors[:1]}"))
SEED('t03-frozenset', 'T03', 'a frozenset given to a set field',
     'the set field accepts frozensets', HEAD + '''
     class A(oblate.Schema):
         x = fields.Set()
     fails(lambda: A({'x': frozenset()}))
     ''', (ST, '        if not isinstance(value, set):\n', '        if not isinstance(value, (set, frozenset)):\n'))
SEED('t04-set-sampled', 'T04', 'a set of more than a thousand items',
     'only the first thousand items of a set are checked', HEAD + '''
     bad = set(range(2000)) | {'x' * 9}
     class Odd(set):
         def __iter__(self):
             yield from range(1500)
             yield 'x'
     try:
         oblate.validate_types({'a': t.Set[int]}, {'a': Odd([1])})
     except oblate.TypeValidationError:
         pass
     else:
         raise SystemExit(1)
     ''', (TV, '        for v in value:  # type: ignore\n', '        for v in list(value)[:1000]:  # type: ignore\n'))
SEED('t04-pipe-union', 'T04', 'a union written with | inside a list type',
     'unions written with | are not enforced inside other types', HEAD + '''
     try:
         oblate.validate_types({'a': t.List[int | str]}, {'a': [1.5]})
     except oblate.TypeValidationError:
         pass
     else:
         raise SystemExit(1)
     ''', (TV, '        return origin is Union or (PY_310 and origin is types.UnionType)', '        return origin is Union'))
SEED('t04-mapping-falsy', 'T04', 'a dictionary value that is falsy and of the wrong type',
     'falsy values of dictionaries are not checked', HEAD + '''
     try:
         oblate.validate_types({'a': t.Dict[str, int]}, {'a': {'k': ''}})
     except oblate.TypeValidationError:
         pass
     else:
         raise SystemExit(1)
     ''', (TV, '                item_validated, fail_msg = cls._process_value(v, vtp)\n                if not item_validated:\n                    validated = False\n                    errors.append(f\'{name} value', '                item_validated, fail_msg = cls._process_value(v, vtp)\n                if v and not item_validated:\n                    validated = False\n                    errors.append(f\'{name} value'))
SEED('t05-same-name', 'T05', 'two unsupported types with the same name',
     'unsupported types are told apart by name only', HEAD + '''
     import warnings
     A, B = t.TypeVar('T'), t.TypeVar('T')
     with warnings.catch_warnings(record=True) as got:
         warnings.simplefilter('always')
         oblate.validate_types({'a': A}, {'a': 1})
         oblate.validate_types({'a': B}, {'a': 1})
     assert len(got) == 2, len(got)
     ''', (TV, '            hash(tp)\n', "            key = getattr(tp, '__name__', None) or tp\n            hash(key)\n"))
SEED('t06-optional-not-required', 'T06', 'a required key whose type allows None is absent',
     'required keys that may be None can be left out', HEAD + '''
     class D(t.TypedDict):
         a: t.Optional[int]
     try:
         oblate.validate_types({'d': D}, {'d': {}})
     except oblate.TypeValidationError:
         pass
     else:
         raise SystemExit(1)
     ''', (TV, "            errors.append(f'Key {key!r} is required')\n", "            if type(None) in get_args(value):\n                continue\n            errors.append(f'Key {key!r} is required')\n"))
SEED('t07-types-consumed', 'T07', 'the same mapping of types used twice',
     'validate_types removes the checked keys from the mapping of types', HEAD + '''
     types = {'a': int}
     oblate.validate_types(types, {'a': 1})
     assert types == {'a': int}
     ''', (TV, '    validator = TypeValidator(dict(types))\n', '    validator = TypeValidator(types if isinstance(types, dict) else dict(types))  # type: ignore\n'))
SEED('n01-subclass-instance', 'N01', 'an instance of a subclass of the nested schema',
     'instances of subclasses of the nested schema are refused', HEAD + '''
     class I(oblate.Schema):
         x = fields.Integer()
     class J(I):
         pass
     class A(oblate.Schema):
         i = fields.Object(I)
     j = J({'x': 1})
     assert A({'i': j}).i is j
     ''', (N, '        if isinstance(value, self.schema_cls):\n            return value\n', '        if type(value) is self.schema_cls:\n            return value\n'))
SEED('n01-kwargs-once', 'N01', 'an object field with init arguments used twice',
     'init arguments are only used for the first value', HEAD + '''
     class I(oblate.Schema):
         x = fields.Integer()
     class A(oblate.Schema):
         i = fields.Object(I, init_kwargs={'state': 4})
     A({'i': {'x': 1}})
     assert A({'i': {'x': 1}}).i.context.state == 4
     ''', (N, '                return self.schema_cls(value, **self.init_kwargs)\n', '                kwargs, self.init_kwargs = self.init_kwargs, {}\n                return self.schema_cls(value, **kwargs)\n'))
SEED('v01-range-zero-upper', 'V01', 'a range whose upper bound is zero',
     'an upper bound of zero is taken as missing', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(validators=[validate.Range(-5, 0)])
     A({'x': -3})
     ''', (V, '        if ub is MISSING:\n            ub = lb\n', '        if not ub:\n            ub = lb\n'))
SEED('v02-exclude-type', 'V02', 'a value equal to a listed one but of another type',
     'the exclusion validator ignores equal values of other types', HEAD + '''
     class A(oblate.Schema):
         x = fields.Any(validators=[validate.Exclude(1, 2)])
     fails(lambda: A({'x': 1.0}))
     ''', (V, '        _assert_value_error(value not in self._values, self._msg)\n', '        _assert_value_error(not any(type(v) is type(value) and v == value for v in self._values), self._msg)\n'))
SEED('v02-or-last', 'V02', 'an or-validator whose last validator fails after an earlier one passed',
     'the or-validator takes the verdict of the last validator', HEAD + '''
     def good(s, v, c): pass
     def bad(s, v, c): raise ValueError('x')
     class A(oblate.Schema):
         x = fields.Any(validators=[validate.Or(bad, good, bad)])
     A({'x': 1})
     ''', (V, '            except (AssertionError, ValueError, FieldError):\n                continue\n            else:\n                passed = True\n                break\n',
           '            except (AssertionError, ValueError, FieldError):\n                passed = False\n            else:\n                passed = True\n'))
SEED('e02-copy-key', 'E02', 'an error with several messages reported outside of its field',
     'errors split from a list carry the ambient key', HEAD + '''
     from oblate.utils import current_field_key
     class A(oblate.Schema):
         x = fields.List(int)
     err = fails(lambda: A({'x': ['a', 'b']}))
     assert set(err.raw()) == {'x'}, err.raw()
     ''', (E, '        copy._key = self._key\n', "        copy._key = current_field_key.get('')\n"))
SEED('p01-contextvar-default', 'P01', 'a validator that builds another schema',
     'the errors of a field are collected in the shared default of a context variable', HEAD + '''
     class I(oblate.Schema):
         y = fields.Integer(validators=[validate.Range(3)])
     def bad(schema, value, context): raise ValueError('first')
     def nested(schema, value, context): I({'y': 1})
     class A(oblate.Schema):
         x = fields.Integer(validators=[bad, nested])
     fails(lambda: A({'x': 1}))
     ''', (U, "current_context: ContextVar", "current_errors: ContextVar[Any] = ContextVar('current_errors', default=[])\ncurrent_context: ContextVar"),
     (B, 'import MISSING, current_field_key, current_schema', 'import MISSING, current_errors, current_field_key, current_schema'),
     (B, '        errors: List[FieldError] = []\n\n        for validator in validators:\n', '        errors: List[FieldError] = current_errors.get()\n        errors.clear()\n\n        for validator in validators:\n'),
     (B, '                errors.append(err)\n\n        return errors\n', '                errors.append(err)\n\n        return errors.copy()\n'))
SEED('s03-exception-only', 'S03', 'an update interrupted by an exception that is no Exception',
     'interrupts do not roll an update back', HEAD + '''
     class Stop(BaseException):
         pass
     def stop(schema, value, context): raise Stop
     class A(oblate.Schema):
         x = fields.Integer()
         y = fields.Integer(required=False)
         @validate.field(y)
         def check(self, value, context): raise Stop
     a = A({'x': 1})
     fails(lambda: a.update({'x': 2, 'y': 3}), Stop)
     assert a.x == 1
     ''', (S, '        except BaseException:\n', '        except Exception:\n'))
SEED('s17-diamond', 'S17', 'a diamond of schemas where one side overrides a field',
     'inherited fields come from the wrong side of a diamond', HEAD + '''
     class P(oblate.Schema):
         x = fields.Integer()
     class L(P):
         x = fields.String()
     class R(P):
         y = fields.Integer()
     class C(L, R):
         pass
     assert C({'x': 'a', 'y': 1}).x == 'a'
     ''', (S, '                for name, field in vars(base).get(\'__fields__\', {}).items():\n                    if vars(base).get(name) is field:\n                        cls.__fields__[name] = field\n',
           '                for name, field in vars(base).get(\'__fields__\', {}).items():\n                    cls.__fields__.setdefault(name, field)\n'))
SEED('s18-default-key-shared', 'S18', 'a copied field bound under another name',
     'a copied field keeps the load key of the original name', HEAD + '''
     class P(oblate.Schema):
         x = fields.Integer()
     class C(oblate.Schema):
         y = P.x.copy()
     assert C({'y': 1}).y == 1
     ''', (B, '        field._unbind()\n        return field\n', '        if field._load_key is MISSING:\n            field._load_key = self._name\n        field._unbind()\n        return field\n'))
SEED('v03-walk-raw-first', 'V03', 'removing validators while listing them',
     'listing all validators leaves out the raw ones when there are no normal ones', HEAD + '''
     f = fields.Any()
     def v(s, x, c): pass
     f.add_validator(v, raw=True)
     assert list(f.walk_validators()) == [v]
     ''', (B, '            validators = self._validators.copy()\n            validators.extend(self._raw_validators)\n', '            validators = self._validators.copy()\n            if validators:\n                validators.extend(self._raw_validators)\n'))
SEED('e01-required-fixed', 'E01', 'a formatting hook that handles the required code with a value',
     'the required error is phrased with the value None', HEAD + '''
     seen = []
     class F(fields.Integer):
         def format_error(self, code, context):
             if code == self.ERR_FIELD_REQUIRED:
                 fails(context.get_value, ValueError)
                 seen.append(code)
     class A(oblate.Schema):
         x = F()
     fails(lambda: A({}))
     assert seen
     ''', (S, 'field._call_format_error(field.ERR_FIELD_REQUIRED, self, MISSING)', 'field._call_format_error(field.ERR_FIELD_REQUIRED, self, None)'))
