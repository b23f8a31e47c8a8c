T = 'oblate/type_validation.py'
P = 'oblate/fields/primitive.py'
N = 'oblate/fields/nesting.py'
ST = 'oblate/fields/structs.py'
TY = 'oblate/fields/typings.py'
B = 'oblate/fields/base.py'
X = 'oblate/exceptions.py'
C = 'oblate/contexts.py'
V = 'oblate/validate.py'
S = 'oblate/schema.py'

HEAD = '''
     import oblate, typing as t
     from oblate import fields, validate
     def errors(cls, data, **kw):
         try:
             cls(data, **kw)
         except oblate.ValidationError as err:
             return err.raw()
         return None
     def refused(validator, value):
         class A(oblate.Schema):
             x = fields.Any(validators=[validator])
         return errors(A, {'x': value}) is not None
'''

SEED('v01-standard-step', 'V01', 'a standard range with a step other than one',
     'Range.from_standard forgets the step of the range', HEAD + '''
     assert refused(validate.Range.from_standard(range(0, 10, 5)), 3)
     ''', (V, "        self._range = range(lb, ub + 1)\n", "        self._range = range(lb, ub + 1)\n\n    def __setattr__(self, name: str, value: Any) -> None:\n        if name == '_range':\n            value = range(value.start, value.stop)\n        super().__setattr__(name, value)\n"))

SEED('v01-length-zero-max', 'V01', 'a maximum length of zero together with a minimum of zero',
     'a maximum length of zero is no bound', HEAD + '''
     assert refused(validate.Length(min=0, max=0), 'abc')
     assert not refused(validate.Length(min=0, max=0), '')
     ''', (V, "        if max is MISSING:\n            _assert_value_error(length >= min", "        if max is MISSING or (not max and min is not MISSING):\n            _assert_value_error(length >= min"))

SEED('v01-range-equal-bounds', 'V01', 'a range whose two bounds are the same negative number',
     'a range of one negative value accepts nothing', HEAD + '''
     assert not refused(validate.Range(-3, -3), -3)
     assert not refused(validate.Range(-3, 5), -3)
     ''', (V, "        self._range = range(lb, ub + 1)\n", "        self._range = range(lb, max(ub + 1, 0)) if ub != lb else range(abs(lb), abs(ub) + 1)\n"))

SEED('v02-exclude-unhashable', 'V02', 'excluded values that cannot be hashed, or a checked value that cannot',
     'checking against excluded values hashes the value', HEAD + '''
     assert not refused(validate.Exclude('a', 'b'), ['a'])
     ''', (V, "        _assert_value_error(value not in self._values, self._msg)", "        _assert_value_error(value not in frozenset(self._values), self._msg)"))

SEED('v02-or-return-value', 'V02', 'a validator in Or that returns False without raising',
     'Or takes a returned False for a failure', HEAD + '''
     assert not refused(validate.Or(lambda s, v, c: False), 3)
     ''', (V, "                validator(context.schema, value, context)\n            except", "                if validator(context.schema, value, context) is False:\n                    continue\n            except"))

SEED('v02-or-field-error', 'V02', 'a validator inside Or that raises a FieldError',
     'a FieldError raised inside Or escapes at once', HEAD + '''
     def no(s, v, c): raise oblate.FieldError('no')
     assert not refused(validate.Or(no, lambda s, v, c: None), 3)
     ''', (V, "            except (AssertionError, ValueError, FieldError):", "            except (AssertionError, ValueError):"))

SEED('v02-regex-empty', 'V02', 'an empty string checked against a pattern it does not match',
     'an empty value passes every pattern', HEAD + '''
     assert refused(validate.Regex('[a-z]+'), '')
     ''', (V, "        if self._match(value) is None:\n", "        if value and self._match(value) is None:\n"))

SEED('v02-regex-flags-full', 'V02', 'flags together with full_match',
     'the flags are forgotten for full matches', HEAD + '''
     assert not refused(validate.Regex('abc', re.I, full_match=True), 'ABC')
     '''.replace('re.I', '2'), (V, "            self._match = self._pattern.fullmatch\n", "            self._match = re.compile(self._pattern.pattern).fullmatch\n"))

SEED('t01-bool-subclass', 'T01', 'a strict integer field given an instance of a subclass of int',
     'strict integer fields refuse values of subclasses', HEAD + '''
     import enum
     class E(enum.IntEnum):
         A = 1
     class A(oblate.Schema):
         x = fields.Integer()
     assert errors(A, {'x': E.A}) is None
     ''', (P, "        if not isinstance(value, int):\n            if self.strict:", "        if type(value) not in (int, bool):\n            if self.strict:"))

SEED('t01-float-whole', 'T01', 'a strict float field given a whole number',
     'strict float fields take integers', HEAD + '''
     class A(oblate.Schema):
         x = fields.Float()
     assert errors(A, {'x': 3}) is not None
     ''', (P, "        if not isinstance(value, float):\n            if self.strict:", "        if not isinstance(value, float):\n            if type(value) is int:\n                return float(value)\n            if self.strict:"))

SEED('t01-string-strip', 'T01', 'a string with surrounding white space',
     'strict strings are stripped', HEAD + '''
     class A(oblate.Schema):
         x = fields.String()
     assert A({'x': ' a '}).x == ' a '
     ''', (P, "        return self._process_value(context.value, context)\n\n    def value_dump(self, value: str, context: DumpContext) -> str:\n        return value",
           "        return self._process_value(context.value, context).strip()\n\n    def value_dump(self, value: str, context: DumpContext) -> str:\n        return value"))

SEED('t01-dump-float-round', 'T01', 'dumping a float with many digits',
     'floats are rounded when dumped', HEAD + '''
     class A(oblate.Schema):
         x = fields.Float()
     assert A({'x': 1.23456789}).dump() == {'x': 1.23456789}
     ''', (P, "    def value_dump(self, value: float, context: DumpContext) -> float:\n        return value", "    def value_dump(self, value: float, context: DumpContext) -> float:\n        return round(value, 6)"))

SEED('t02-own-empty-values', 'T02', 'a lenient boolean with an empty list of true values',
     'an empty list of values falls back to the standard one', HEAD + '''
     class A(oblate.Schema):
         x = fields.Boolean(strict=False, true_values=())
     assert errors(A, {'x': 'yes'}) is not None
     ''', (P, "true_values if true_values is not None else self.TRUE_VALUES", "true_values or self.TRUE_VALUES"))

SEED('t02-class-values', 'T02', 'a subclass of Boolean with other TRUE_VALUES',
     'the values of a subclass are ignored', HEAD + '''
     class Ja(fields.Boolean):
         TRUE_VALUES = ('ja',)
     class A(oblate.Schema):
         x = Ja(strict=False)
     assert A({'x': 'ja'}).x is True
     ''', (P, "true_values if true_values is not None else self.TRUE_VALUES", "true_values if true_values is not None else Boolean.TRUE_VALUES"))

SEED('t02-integer-narrow', 'T02', 'a lenient integer field given a value whose conversion raises OverflowError',
     'only ValueError and TypeError of a conversion become coercion errors', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(strict=False)
     assert errors(A, {'x': float('inf')}) is not None
     ''', (P, "                return int(value)\n            except Exception:", "                return int(value)\n            except (ValueError, TypeError):"))

SEED('t02-integer-via-float', 'T02', 'a lenient integer field given a large number as text',
     'integers are converted by way of float', HEAD + '''
     class A(oblate.Schema):
         x = fields.Integer(strict=False)
     assert A({'x': '9007199254740993'}).x == 9007199254740993
     ''', (P, "                return int(value)\n", "                return int(float(value)) if isinstance(value, str) and len(value) > 9 else int(value)\n"))

SEED('t02-strict-late', 'T02', 'a lenient boolean given the number 1',
     'numbers are not converted to booleans any more', HEAD + '''
     class A(oblate.Schema):
         x = fields.Boolean(strict=False)
     assert A({'x': 1}).x is True
     ''', (P, "        if not isinstance(value, bool):\n            if self.strict:", "        if not isinstance(value, bool):\n            if self.strict or isinstance(value, int):"))

SEED('t03-dict-mapping', 'T03', 'a Dict field without types given a mapping that is no dict',
     'an untyped Dict field accepts anything with items', HEAD + '''
     import types
     class A(oblate.Schema):
         x = fields.Dict()
     assert errors(A, {'x': types.MappingProxyType({})}) is not None
     ''', (ST, "        if not isinstance(value, dict):\n            raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)\n        if self._tp", "        if not isinstance(value, dict) and not hasattr(value, 'items'):\n            raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)\n        if self._tp"))

SEED('t03-list-empty-skip', 'T03', 'a List field with an item type given a list whose first item is falsy',
     'lists starting with a falsy item are not validated', HEAD + '''
     class A(oblate.Schema):
         x = fields.List(str)
     assert errors(A, {'x': [0]}) is not None
     ''', (ST, "        if not isinstance(value, list):\n            raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)\n        if self._tp is not None:", "        if not isinstance(value, list):\n            raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)\n        if self._tp is not None and value and value[0]:"))

SEED('t03-typed-dict-copy', 'T03', 'a TypedDict field given an instance of a dict subclass',
     'the stored value is a copy of plain type', HEAD + '''
     class D(t.TypedDict):
         a: int
     class Own(dict):
         pass
     class A(oblate.Schema):
         x = fields.TypedDict(D)
     v = Own(a=1)
     assert A({'x': v}).x is v
     ''', (ST, "            raise self._call_format_error(self.ERR_TYPE_VALIDATION_FAILED, context.schema, value, metadata=metadata)\n\n        return value  # type: ignore", "            raise self._call_format_error(self.ERR_TYPE_VALIDATION_FAILED, context.schema, value, metadata=metadata)\n\n        return dict(value)  # type: ignore"))

SEED('t04-map-none-value', 'T04', 'a dictionary with a None value where None is not in the value type',
     'None values of dictionaries are not validated', HEAD + '''
     class A(oblate.Schema):
         x = fields.Dict(str, int)
     assert errors(A, {'x': {'a': None}}) is not None
     ''', (T, "            else:\n                item_validated, fail_msg = cls._process_value(v, vtp)", "            elif v is not None:\n                item_validated, fail_msg = cls._process_value(v, vtp)"))

SEED('t04-union-two', 'T04', 'a union of three types and a value of the third',
     'the members of a union after the second are ignored', HEAD + '''
     class A(oblate.Schema):
         x = fields.TypeExpr(t.Union[t.List[int], t.Dict[str, int], t.Set[int], None])
     assert errors(A, {'x': {1}}) is None
     class D(oblate.Schema):
         x = fields.TypeExpr(t.List[t.Union[int, str, bytes, None]])
     assert errors(D, {'x': [b'1', None]}) is None
     ''', (T, "        for tp in args:\n            validated, _ = cls._process_value(value, tp)", "        for tp in args[:2] if len(args) > 3 else args:\n            validated, _ = cls._process_value(value, tp)"))

SEED('t04-literal-hash', 'T04', 'an unhashable value for a literal type',
     'validating a literal hashes the value', HEAD + '''
     class A(oblate.Schema):
         x = fields.Literal('a', 'b')
     assert errors(A, {'x': ['a']}) is not None
     ''', (T, "        if value not in args:\n", "        if value not in frozenset(args):\n"))

SEED('t04-tuple-extra', 'T04', 'a fixed tuple of one position given no item',
     'an empty tuple passes for a fixed tuple of one position', HEAD + '''
     class A(oblate.Schema):
         x = fields.TypeExpr(t.Tuple[int])
     assert errors(A, {'x': ()}) is not None
     ''', (T, "                except IndexError:\n                    validated = False", "                except IndexError:\n                    validated = not value and len(args) == 1"))

SEED('t04-homogeneous-key', 'T04', 'a dictionary with a wrong key and a right value later',
     'a wrong key is forgotten when its value is right', HEAD + '''
     class A(oblate.Schema):
         x = fields.Dict(str, int)
     assert errors(A, {'x': {1: 1, 'a': 1}}) is not None
     ''', (T, "                errors.append(f'{name} key at index {idx}: {fail_msg[0]}')\n            else:\n                item_validated, fail_msg = cls._process_value(v, vtp)\n                if not item_validated:\n",
              "                errors.append(f'{name} key at index {idx}: {fail_msg[0]}')\n            else:\n                item_validated, fail_msg = cls._process_value(v, vtp)\n                validated = not errors or idx > 0\n                if not item_validated:\n"))

SEED('t05-origin-unhashable', 'T05', 'a type expression that has no __name__ and is no class',
     'warning of an unsupported type needs its __name__', HEAD + '''
     import warnings
     warnings.simplefilter('ignore')
     class A(oblate.Schema):
         x = fields.TypeExpr(t.Optional['A'])
         y = fields.TypeExpr(t.ForwardRef('Q'))
     A({'x': 3, 'y': 4})
     ''', (T, "cls._warning_unsupported_type.format(type=getattr(tp, '__name__', tp))", "cls._warning_unsupported_type.format(type=tp.__name__)"))

SEED('t05-unsupported-invalid', 'T05', 'an unsupported generic type nested in a supported one',
     'values of unsupported generic types are refused unless they are instances of the origin', HEAD + '''
     import collections, warnings
     warnings.simplefilter('ignore')
     class A(oblate.Schema):
         x = fields.TypeExpr(t.List[t.Deque[int]])
     assert errors(A, {'x': [3]}) is None
     ''', (T, "        if origin is not None:\n            cls._warn_unsupported(origin)\n\n        return True, []\n\n", "        if origin is not None:\n            cls._warn_unsupported(origin)\n            if origin is collections.deque:\n                return isinstance(value, origin), ['Must be of type deque']\n\n        return True, []\n\n"))

SEED('t05-warning-off', 'T05', 'an unsupported type that was met while warnings were turned off',
     'a type is marked as warned about while warnings are off', HEAD + '''
     import warnings
     class A(oblate.Schema):
         x = fields.TypeExpr(t.FrozenSet[int])
     oblate.config.warn_unsupported_types = False
     A({'x': 1})
     oblate.config.warn_unsupported_types = True
     with warnings.catch_warnings(record=True) as w:
         warnings.simplefilter('always')
         A({'x': 1})
     assert w
     ''', (T, "        cls._warnings_issued.add(key)\n        warnings.warn(", "        warnings.warn("),
          (T, "            return  # pragma: no cover\n\n", "            cls._warnings_issued.add(key)\n            return  # pragma: no cover\n\n        cls._warnings_issued.add(key)\n"))

SEED('t06-extra-ok-empty', 'T06', 'an undeclared key in a dictionary that has all declared keys',
     'an undeclared key is accepted after every declared one was seen', HEAD + '''
     class D(t.TypedDict):
         a: int
     class A(oblate.Schema):
         x = fields.TypedDict(D)
     assert errors(A, {'x': {'a': 1, 'b': 2}}) is not None
     ''', (T, "                errors.append(f'Invalid key {key!r}')\n", "                if typehints:\n                    errors.append(f'Invalid key {key!r}')\n"))

SEED('t06-required-marker', 'T06', 'a typed dictionary with total=False and a Required key',
     'the Required marker is ignored where total is False', HEAD + '''
     class D(t.TypedDict, total=False):
         a: t.Required[int]
         b: int
     class A(oblate.Schema):
         x = fields.TypedDict(D)
     assert errors(A, {'x': {'b': 2}}) is not None
     assert errors(A, {'x': {}}) is not None
     ''', (T, "        for key, value in typehints.items():\n            origin = get_origin(value)\n", "        for key, value in typehints.items():\n            origin = get_origin(value)\n            if not tp.__total__ and origin is Required and not errors and len(typehints) > 1:\n                continue\n"))

SEED('t06-none-value', 'T06', 'a None value of a declared key whose type is not optional',
     'None is taken for an absent value of a typed dictionary', HEAD + '''
     class D(t.TypedDict):
         a: int
     class A(oblate.Schema):
         x = fields.TypedDict(D)
     assert errors(A, {'x': {'a': None}}) is not None
     ''', (T, "                validated, msg = cls._process_value(value, attr_tp)\n", "                validated, msg = cls._process_value(value, attr_tp) if value is not None else (True, [])\n"))

SEED('t07-extra-and-missing', 'T07', 'extras ignored while a declared key is missing',
     'missing keys are forgotten when extras are ignored', HEAD + '''
     try:
         oblate.validate_types({'a': int}, {'z': 1}, ignore_extra=True)
     except oblate.TypeValidationError as err:
         assert set(err.errors) == {'a'}
     else:
         raise AssertionError
     ''', (T, "        for key in validator.types:\n            key_errors[key]", "        for key in validator.types if not ignore_extra or validator.types.keys() < dict(types).keys() else ():\n            key_errors[key]"))

SEED('t07-none-extra', 'T07', 'ignored extras and a declared key whose value is None',
     'a declared key with the value None is skipped when extras are ignored', HEAD + '''
     try:
         oblate.validate_types({'a': int}, {'a': None}, ignore_extra=True)
     except oblate.TypeValidationError as err:
         assert err.errors['a'][0].startswith('Must be')
     else:
         raise AssertionError
     ''', (T, "        if key not in validator.types and ignore_extra:\n", "        if ignore_extra and (key not in validator.types or value is None):\n"))

SEED('n01-init-kwargs-lost', 'N01', 'a nested schema with init_kwargs given a mapping that is no dict',
     'init_kwargs are ignored for mappings that are no dict', HEAD + '''
     import types
     class I(oblate.Schema):
         a = fields.Integer()
     class A(oblate.Schema):
         x = fields.Object(I, init_kwargs={'ignore_extra': True})
     assert errors(A, {'x': types.MappingProxyType({'a': 1, 'b': 2})}) is None
     ''', (N, "                return self.schema_cls(value, **self.init_kwargs)\n", "                return self.schema_cls(value, **(self.init_kwargs if isinstance(value, dict) else {}))\n"))

SEED('n01-flat-errors', 'N01', 'a nested schema with failures in two of its fields',
     'only the first failing field of a nested schema is reported', HEAD + '''
     class I(oblate.Schema):
         a = fields.Integer()
         b = fields.Integer()
     class A(oblate.Schema):
         x = fields.Object(I)
     assert set(errors(A, {'x': {'a': 'q', 'b': 'q'}})['x'][0]) == {'a', 'b'}
     ''', (N, "            except ValidationError as err:\n                raise FieldError(err._raw_std(include_message=False)) from None\n\n        raise", "            except ValidationError as err:\n                raw = err._raw_std(include_message=False)\n                raise FieldError({k: raw[k] for k in sorted(raw)[:1]} if len(raw) > 1 and value else raw) from None\n\n        raise"))

SEED('n01-other-schema', 'N01', 'an object of another schema class given for a nested schema',
     'any schema object is accepted for a nested schema', HEAD + '''
     class I(oblate.Schema):
         a = fields.Integer()
     class O(oblate.Schema):
         a = fields.Integer()
     class A(oblate.Schema):
         x = fields.Object(I)
     assert errors(A, {'x': O({'a': 1})}) is not None
     ''', (N, "        if isinstance(value, self.schema_cls):\n            return value\n", "        if isinstance(value, self.schema_cls) or isinstance(value, Schema) and value.__fields__.keys() == self.schema_cls.__fields__.keys():\n            return value  # type: ignore\n"))

SEED('e01-falsy-value', 'E01', 'a falsy offending value read in the formatting hook',
     'reading a falsy offending value from the error context fails', HEAD + '''
     seen = []
     class F(fields.String):
         def format_error(self, code, ctx):
             seen.append(ctx.get_value())
     class A(oblate.Schema):
         x = F()
     errors(A, {'x': 0})
     assert seen == [0]
     ''', (C, "        if self._value is MISSING:", "        if not self._value:"))

SEED('e01-format-copy', 'E01', 'a formatting hook that returns a FieldError with a state',
     'the state of the error a formatting hook returns is lost', HEAD + '''
     class F(fields.String):
         def format_error(self, code, ctx):
             return oblate.FieldError('own', state='kept')
     class A(oblate.Schema):
         x = F()
     try:
         A({'x': 0})
     except oblate.ValidationError as err:
         assert err.errors[0].state == 'kept'
     ''', (B, "        if isinstance(error, FieldError):\n            return error\n", "        if isinstance(error, FieldError):\n            return FieldError(error.message)\n"))

SEED('e01-format-empty', 'E01', 'a formatting hook that returns an empty text',
     'an empty text from the hook is replaced by the default message', HEAD + '''
     class F(fields.String):
         def format_error(self, code, ctx):
             return ''
     class A(oblate.Schema):
         x = F()
     assert errors(A, {'x': 0}) == {'x': ['']}
     ''', (B, "        if error is None:\n", "        if not error:\n"))

SEED('e01-code-shared', 'E01', 'a formatting hook that tells invalid values from unvalidated ones by code',
     'a union reports the code of a validator failure', HEAD + '''
     seen = []
     class F(fields.Union):
         def format_error(self, code, ctx):
             seen.append(code)
             return 'own'
     class A(oblate.Schema):
         x = F(int, str)
     errors(A, {'x': 1.5})
     assert seen == [fields.Union.ERR_INVALID_VALUE] and fields.Union.ERR_INVALID_VALUE != fields.Field.ERR_VALIDATION_FAILED
     ''', (TY, "    ERR_INVALID_VALUE = 'union.invalid_value'", "    ERR_INVALID_VALUE = Field.ERR_VALIDATION_FAILED"))

SEED('e02-same-message-once', 'E02', 'two failures of one field with the same message',
     'equal messages under one key are reported once', HEAD + '''
     def no(s, v, c): raise ValueError('no')
     def no2(s, v, c): raise ValueError('no')
     class A(oblate.Schema):
         x = fields.Any(validators=[no, no2])
     assert errors(A, {'x': 1}) == {'x': ['no', 'no']}
     ''', (X, "                out[error.key].append(value)", "                if value not in out[error.key]:\n                    out[error.key].append(value)"))

SEED('e02-copy-state', 'E02', 'one error with several messages and a state',
     'the state is lost when an error with several messages is split', HEAD + '''
     def no(s, v, c): raise oblate.FieldError(['a', 'b'], state=7)
     class A(oblate.Schema):
         x = fields.Any(validators=[no])
     try:
         A({'x': 1})
     except oblate.ValidationError as err:
         assert [e.state for e in err.errors] == [7, 7]
     ''', (X, "        copy.state = self.state\n", "        copy.state = None\n"))

SEED('e02-neighbours', 'E02', 'two neighbouring errors that both have several messages',
     'of two neighbouring errors with several messages the second stays unsplit', HEAD + '''
     def no(s, v, c): raise oblate.FieldError(['a', 'b'])
     class A(oblate.Schema):
         x = fields.Any(validators=[no])
         y = fields.Any(validators=[no])
     assert errors(A, {'x': 1, 'y': 2}) == {'x': ['a', 'b'], 'y': ['a', 'b']}
     ''', (X, "        for error in errors:\n            if not isinstance", "        for error in self.errors:\n            if not isinstance"))

SEED('e02-tuple-message', 'E02', 'a field error whose message is a tuple',
     'tuples of messages are not split', HEAD + '''
     def no(s, v, c): raise oblate.FieldError(('a', 'b'))
     class A(oblate.Schema):
         x = fields.Any(validators=[no])
     assert errors(A, {'x': 1}) == {'x': ['a', 'b']}
     ''', (X, "(list, tuple, set)", "(list, set)"))

SEED('e02-falsy-messages', 'E02', 'a message that is an empty text or zero',
     'falsy messages are dropped from nested lists', HEAD + '''
     def no(s, v, c): raise oblate.FieldError({'k': ['', 0, 'a']})
     class A(oblate.Schema):
         x = fields.Any(validators=[no])
     assert errors(A, {'x': 1}) == {'x': [{'k': ['', '0', 'a']}]}
     ''', (X, "                new_list.append(self._ensure_string(item))\n", "                if item:\n                    new_list.append(self._ensure_string(item))\n"))

SEED('s12-empty-assertion', 'S12', 'a validator that asserts without a message during an assignment',
     'an assertion without a message is reported with an empty text', HEAD + '''
     def no(s, v, c): assert v < 5
     class A(oblate.Schema):
         x = fields.Integer(validators=[no])
     a = A({'x': 1})
     try:
         a.x = 9
     except oblate.ValidationError as err:
         assert err.raw() == {'x': ['Validation failed for this field.']}, err.raw()
     ''', (X, "        if not message:\n", "        if not message and field.context.is_initialized() is None if hasattr(field, 'context') else not message and not schema._context.is_initialized():\n"))

