E, C, G = 'exceptions.py', 'contexts.py', 'configs.py'
PR, ST, NE, TP, TV, VA = 'fields/primitive.py', 'fields/structs.py', 'fields/nesting.py', 'fields/typings.py', 'type_validation.py', 'validate.py'

W('w-err-flatten', (E, 'ValidationError._flatten_errors', '''
    def _flatten_errors(self, errors):
        plain, split = [], []
        for error in errors:
            if isinstance(error.message, (list, tuple, set)):
                split.extend(error._copy_with(message) for message in error.message)
            else:
                plain.append(error)
        self.errors[:] = plain + split
'''), (E, 'FieldError._copy_with', '''
    def _copy_with(self, message):
        cls = type(self)
        new = cls.__new__(cls)
        for name in ('state', 'context', 'schema', '_key'):
            setattr(new, name, getattr(self, name))
        new.message = message
        new.args = (message,)
        return new
'''))

W('w-err-raw-default', (E, 'ValidationError._raw_std', '''
    def _raw_std(self, *, include_message=True):
        grouped = {}
        for error in self.errors:
            grouped.setdefault(error.key, []).append(self._ensure_string(error.message) if include_message else error)
        return grouped
'''), (E, 'ValidationError._ensure_string', '''
    def _ensure_string(self, obj):
        if isinstance(obj, FieldError):
            obj = obj.message
            return self._ensure_string(obj)
        if isinstance(obj, dict):
            return {key: self._ensure_string(value) for key, value in obj.items()}
        if isinstance(obj, list):
            return [self._ensure_string(item) for item in obj]
        return str(obj)
'''))

W('w-err-message-lines', (E, 'ValidationError._make_message', '''
    def _make_message(self, field_errors=None, level=0):
        if field_errors is None:
            field_errors = self._raw_std(include_message=False)
        lines = list(self._message_lines(field_errors, level * 4))
        if level:
            return '\\n'.join(lines)
        count = len(field_errors)
        noun = 'errors' if count > 1 else 'error'
        header = f'│ {count} validation {noun} in schema {type(self.schema).__qualname__!r}'
        return '\\n'.join(['', '│', header, *lines])

    def _message_lines(self, field_errors, indent):
        pad = ' ' * indent
        for name, errors in field_errors.items():
            errors = errors if isinstance(errors, list) else [errors]
            yield pad + '│'
            yield f'{pad}└── In field {self._title(name, errors)}:'
            last = len(errors) - 1
            for position, error in enumerate(errors):
                text = error.message if isinstance(error, FieldError) else error
                if isinstance(text, dict):
                    yield from self._message_lines(text, indent + 4)
                else:
                    mark = '└──' if position == last else '├──'
                    yield pad + '    ' + mark + ' ' + str(text)

    def _title(self, name, errors):
        first = errors[0] if errors else None
        field = first.field if isinstance(first, FieldError) else None
        if field and field._name != name:
            return f'{name} ({field._name})'
        return f'{name}'
'''))

W('w-err-message-recursive-str', (E, 'ValidationError._make_message', '''
    def _make_message(self, field_errors=None, level=0):
        top = level == 0
        groups = self._raw_std(include_message=False) if field_errors is None else field_errors
        pad = '    ' * level
        text = ''
        if top:
            text = '\\n│\\n│ {} validation {} in schema {!r}'.format(
                len(groups), 'error' if len(groups) <= 1 else 'errors', self.schema.__class__.__qualname__)
        for name, errors in groups.items():
            if not isinstance(errors, list):
                errors = [errors]
            label = str(name)
            if errors and isinstance(errors[0], FieldError) and errors[0].field:
                attribute = errors[0].field._name
                if attribute != name:
                    label = f'{name} ({attribute})'
            text += ('\\n' if text else '') + pad + '│\\n' + pad + '└── In field ' + label + ':'
            for i in range(len(errors)):
                error = errors[i]
                content = error
                if isinstance(error, FieldError):
                    content = error.message
                text += '\\n'
                if isinstance(content, dict):
                    text += self._make_message(content, level + 1)
                elif i + 1 == len(errors):
                    text += f'{pad}    └── {content}'
                else:
                    text += f'{pad}    ├── {content}'
        return text
'''))

W('w-err-std', (E, 'FieldError._from_standard_error', '''
    def _from_standard_error(cls, err, schema, field, value=MISSING):
        if message := str(err):
            return cls(message)
        return field._call_format_error(field.ERR_VALIDATION_FAILED, schema, value)
'''), (E, 'FieldError.field', '''
    def field(self):
        fields = self.schema.__load_fields__
        return fields[self._key] if self._key in fields else None
'''), (E, 'FrozenError.__init__', '''
    def __init__(self, entity):
        from oblate.schema import Schema
        self.entity = entity
        if isinstance(entity, Schema):
            what = type(entity).__name__ + ' schema'
        else:
            what = '{}.{} field'.format(entity._schema.__name__, entity._name)
        super().__init__(what + ' is frozen and cannot be updated')
'''))

W('w-contexts', (C, 'SchemaContext._copy', '''
    def _copy(self, schema):
        new = type(self)(schema, copy.copy(self.state))
        new._initialized = True
        return new
'''), (C, 'DumpContext.__init__', '''
    def __init__(self, included_fields, **kwargs):
        super().__init__(**kwargs)
        self.included_fields = included_fields
'''), (C, 'ErrorContext.__init__', '''
    def __init__(self, *, error_code, schema, field, value=MISSING, metadata=MISSING):
        self._value, self._field = value, field
        self.error_code, self.schema = error_code, schema
        if metadata is MISSING:
            metadata = {}
        self.metadata = metadata
'''), (C, 'ErrorContext.get_value', '''
    def get_value(self):
        value = self._value
        if value is not MISSING:
            return value
        raise ValueError('No value associated to the error')
'''))

W('w-config-option', (G, '_ConfigOption.__get__', '''
    def __get__(self, instance, owner):
        if instance is not None:
            return instance._values.get(self._name, self._default)
        return self if _SPHINX_BUILD else self._default
'''), (G, '_ConfigOption.__set__', '''
    def __set__(self, instance, value):
        convert = self._setter
        instance._values[self._name] = convert(instance, value) if convert else value
'''))

W('w-primitive-shared', (PR, 'String._process_value', '''
    def _process_value(self, value, ctx):
        if isinstance(value, str):
            return value
        code = self.ERR_INVALID_DATATYPE
        if not self.strict:
            code = self.ERR_COERCION_FAILED
            try:
                return str(value)
            except Exception:
                pass
        raise self._call_format_error(code, ctx.schema, value)
'''), (PR, 'Integer._process_value', '''
    def _process_value(self, value, ctx):
        if isinstance(value, int):
            return value
        if self.strict:
            raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
        try:
            result = int(value)
        except Exception:
            error = self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value)
        else:
            return result
        raise error
'''), (PR, 'Float.value_load', '''
    def value_load(self, value, context):
        return value if isinstance(value, float) else self._process_value(value, context)
'''), (PR, 'Boolean._process_value', '''
    def _process_value(self, value, ctx):
        if isinstance(value, bool):
            return value
        if self.strict:
            raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
        try:
            text = str(value)
        except Exception:
            text = None
        for result, accepted in ((True, self._true_values), (False, self._false_values)):
            if text is not None and text in accepted:
                return result
        raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value)
'''))

W('w-primitive-messages', (PR, 'Integer._get_default_error_message', '''
    def _get_default_error_message(self, error_code, context):
        match error_code:
            case self.ERR_INVALID_DATATYPE:
                return 'Value must be an integer'
            case self.ERR_COERCION_FAILED:
                return 'Failed to coerce {!r} to integer'.format(context._value)
            case _:
                return super()._get_default_error_message(error_code, context)
'''), (PR, 'Boolean.__init__', '''
    def __init__(self, *, strict=True, true_values=None, false_values=None, **kwargs):
        super().__init__(**kwargs)
        self.strict = strict
        if true_values is None:
            true_values = self.TRUE_VALUES
        if false_values is None:
            false_values = self.FALSE_VALUES
        self._true_values, self._false_values = true_values, false_values
'''))

W('w-structs-base-load', (ST, '_BaseStructField._get_default_error_message', '''
    def _check(self, value, context, kind, validator):
        if not isinstance(value, kind):
            raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
        if validator is None:
            return value
        ok, problems = validator.validate('root', value)
        if ok:
            return value
        raise self._call_format_error(
            self.ERR_TYPE_VALIDATION_FAILED, context.schema, value,
            metadata=dict(type_validation_fail_errors=problems))

    def _get_default_error_message(self, error_code: Any, context: ErrorContext) -> Union[FieldError, str]:
        if error_code == self.ERR_INVALID_DATATYPE:
            return 'Value must be a ' + self._friendly_struct_name
        elif error_code == self.ERR_TYPE_VALIDATION_FAILED:
            return FieldError(context.metadata['type_validation_fail_errors'])
        return super()._get_default_error_message(error_code, context)
'''), (ST, 'Dict.value_load', '''
    def value_load(self, value, context):
        return self._check(value, context, dict, self._tp)
'''), (ST, 'TypedDict.value_load', '''
    def value_load(self, value, context):
        return self._check(value, context, dict, self._validator)
'''), (ST, 'List.value_load', '''
    def value_load(self, value, context):
        return self._check(value, context, list, self._tp)
'''), (ST, 'Set.value_load', '''
    def value_load(self, value, context):
        return self._check(value, context, set, self._tp)
'''))

W('w-nesting', (NE, 'Object.value_load', '''
    def value_load(self, value, context):
        if not isinstance(value, self.schema_cls):
            if not isinstance(value, collections.abc.Mapping):
                raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
            value = self._build(value)
        return value

    def _build(self, data):
        try:
            return self.schema_cls(data, **dict(self.init_kwargs))
        except ValidationError as err:
            problems = err._raw_std(include_message=False)
        raise FieldError(problems)
'''), (NE, 'Object.value_dump', '''
    def value_dump(self, value, context):
        if value is None:
            return None
        try:
            dumped = value.dump()
        except ValidationError as err:
            error = FieldError(err._raw_std(include_message=False))
            raise error from None
        return dumped
'''))

W('w-typings', (TP, 'Literal.value_load', '''
    def value_load(self, value, context):
        ok, problems = self._tp.validate('root', value)
        if ok:
            return value
        raise self._call_format_error(self.ERR_INVALID_VALUE, context.schema, value, {'type_validation_fail_errors': problems})
'''), (TP, 'TypeExpr.value_load', '''
    def value_load(self, value, context):
        result = self._tp.validate('root', value)
        if not result[0]:
            raise self._call_format_error(self.ERR_TYPE_VALIDATION_FAILED, schema=context.schema, value=value,
                                          metadata={'type_validation_fail_errors': result[1]})
        return value
'''), (TP, '_generic_type_with_args', '''
def _generic_type_with_args(tp, args):
    return tp[tuple(args)]
'''))

W('w-tv-dispatch', (TV, 'TypeValidator._process_value', '''
    def _process_value(cls, value, tp):
        if tp is Any:
            return True, []
        origin = get_origin(tp)
        if origin is not None:
            return cls._handle_origin(value, tp, origin)
        if is_typeddict(tp):
            return cls._handle_type_typed_dict(value, tp)
        try:
            if isinstance(value, tp):
                return True, []
        except TypeError:
            cls._warn_unsupported(tp)
            return True, []
        return False, ['Must be of type {}'.format(getattr(tp, '__name__', tp))]
'''), (TV, 'TypeValidator._handle_origin', '''
    def _handle_origin(cls, value, tp, origin):
        if cls._is_origin_union(origin):
            handler = cls._handle_origin_union
        elif origin is Required or origin is NotRequired:
            handler = cls._handle_origin_required
        elif origin is Literal:
            handler = cls._handle_origin_literal
        elif origin in (list, set, dict, tuple, collections.abc.Sequence, collections.abc.Mapping):
            handler = cls._process_struct
        else:
            if origin is not None:
                cls._warn_unsupported(origin)
            return True, []
        return handler(value, tp)
'''), (TV, 'TypeValidator._process_struct', '''
    def _process_struct(cls, value, tp):
        handlers = {
            collections.abc.Sequence: cls._handle_origin_sequence,
            collections.abc.Mapping: cls._handle_origin_mapping,
            dict: cls._handle_origin_dict,
            list: cls._handle_origin_list,
            set: cls._handle_origin_set,
            tuple: cls._handle_origin_tuple,
        }
        return handlers[get_origin(tp)](value, tp)
'''))

W('w-tv-list-comp', (TV, 'TypeValidator._handle_origin_list', '''
    def _handle_origin_list(cls, value, tp):
        if not isinstance(value, list):
            return False, ['Must be a valid list']
        item_tp = (get_args(tp) or (Any,))[0]
        results = [cls._process_value(item, item_tp) for item in value]
        errors = [f'Sequence item at index {idx}: {why[0]}' for idx, (ok, why) in enumerate(results) if not ok]
        return len(errors) == 0, errors
'''), (TV, 'TypeValidator._handle_origin_set', '''
    def _handle_origin_set(cls, value, tp):
        if not isinstance(value, set):
            return False, ['Must be a valid set']
        args = get_args(tp)
        item_tp = args[0] if args else Any
        errors = []
        for item in value:
            ok, why = cls._process_value(item, item_tp)
            if ok:
                continue
            errors.append('Set includes an invalid item: ' + why[0])
        return not errors, errors
'''))

W('w-tv-tuple', (TV, 'TypeValidator._handle_origin_tuple', '''
    def _handle_origin_tuple(cls, value, tp):
        if not isinstance(value, tuple):
            return False, ['Must be a valid tuple']
        if tp is Tuple:
            return True, []
        args = get_args(tp)
        expected, actual = len(args), len(value)
        errors = []
        if expected == 2 and args[1] is Ellipsis:
            pairs = ((item, args[0]) for item in value)
        else:
            pairs = zip(value, args)
        for idx, (item, item_tp) in enumerate(pairs):
            ok, why = cls._process_value(item, item_tp)
            if not ok:
                errors.append(f'Tuple item at index {idx}: {why[0]}')
        if not (expected == 2 and args[1] is Ellipsis) and expected != actual:
            errors.append(f'Tuple length must be {expected} (current length: {actual})')
        return not errors, errors
'''))

W('w-tv-typeddict', (TV, 'TypeValidator._handle_type_typed_dict', '''
    def _handle_type_typed_dict(cls, value, tp):
        if not isinstance(value, dict):
            return False, [f'Must be a {tp.__name__} dictionary']
        hints = get_type_hints(tp, include_extras=True)
        errors = []
        for key in value:
            if key not in hints:
                errors.append(f'Invalid key {key!r}')
                continue
            ok, why = cls._process_value(value[key], hints[key])
            if not ok:
                errors.append(f'Validation failed for {key!r}: {why[0]}')
        for key, hint in hints.items():
            if key in value or not cls._needs_key(tp, key, hint):
                continue
            errors.append(f'Key {key!r} is required')
        return not errors, errors

    @staticmethod
    def _needs_key(tp, key, hint):
        origin = get_origin(hint)
        if origin is Required:
            return True
        if origin is NotRequired:
            return False
        return key in tp.__required_keys__
'''))

W('w-tv-validate-types', (TV, 'validate_types', '''
def validate_types(types, values, *, ignore_extra=False, ignore_missing=False):
    missing = dict(types)
    validator = TypeValidator(dict(types))
    failures = {}
    for key, value in values.items():
        if key not in validator.types:
            if not ignore_extra:
                failures[key] = ['Invalid key']
            continue
        del missing[key]
        ok, errors = validator.validate(key, value)
        if not ok:
            failures[key] = errors
    if not ignore_missing:
        failures.update((key, ['This key is missing.']) for key in missing)
    if failures:
        raise TypeValidationError(failures)
'''))

W('w-va-or', (VA, 'Or.validate', '''
    def validate(self, value, context):
        if not any(self._passes(validator, value, context) for validator in self._validators):
            raise ValueError('All validations failed for the given value')

    @staticmethod
    def _passes(validator, value, context):
        try:
            validator(context.schema, value, context)
        except (AssertionError, ValueError, FieldError):
            return False
        return True
'''), (VA, 'Exclude.validate', '''
    def validate(self, value, context):
        for excluded in self._values:
            if excluded is value or excluded == value:
                raise ValueError(self._msg)
'''), (VA, 'Regex.validate', '''
    def validate(self, value, context):
        matched = self._match(value)
        if matched is not None:
            return
        raise ValueError(self._fail_message.format(value=value, pattern=self._pattern))
'''))

W('w-va-bounds', (VA, 'Length.validate', '''
    def validate(self, value, context):
        size = len(value)
        too_short = self._min is not MISSING and size < self._min
        too_long = self._max is not MISSING and size > self._max
        if too_short or too_long:
            raise ValueError(self._msg)
'''), (VA, 'Range.validate', '''
    def validate(self, value, context):
        if value not in self._range:
            raise ValueError(self._msg)
'''), (VA, 'field', '''
def field(field, *, raw=False):
    target, is_raw = field, raw

    def decorate(func):
        setattr(func, '__validator_field__', target)
        setattr(func, '__validator_is_raw__', is_raw)
        return func
    return decorate
'''))

W('w-repr-format', (S, '_schema_repr', '''
    def _schema_repr(self):
        shown = []
        for name in self._field_values:
            shown.append('{}={}'.format(name, self._field_values[name]))
        return '{0}({1})'.format(type(self).__name__, ', '.join(shown))
'''))
W('w-repr-percent', (S, '_schema_repr', '''
    def _schema_repr(self):
        attrs = ', '.join(['%s=%s' % item for item in self._field_values.items()])
        return self.__class__.__name__ + '(' + attrs + ')'
'''))
W('w-repr-builder', (S, '_schema_repr', '''
    def _schema_repr(self):
        text = self.__class__.__name__
        text += '('
        first = True
        for name, value in self._field_values.items():
            if not first:
                text += ', '
            text += f'{name}={value}'
            first = False
        return text + ')'
'''))
W('w-unset-init', (E, 'FieldNotSet.__init__', '''
    def __init__(self, field, schema, field_name):
        message = 'Field %r has no value set' % (field._name,)
        super().__init__(message, field._name, schema)
        self.schema, self.field = schema, field
        self.name = self.field_name = field_name
'''))
W('w-frozen-init', (E, 'FrozenError.__init__', '''
    def __init__(self, entity):
        from oblate.schema import Schema as _Schema  # circular import

        if isinstance(entity, _Schema):
            name = '{} schema'.format(type(entity).__name__)
        else:
            name = '{}.{} field'.format(entity._schema.__name__, entity._name)
        self.entity = entity
        message = name + ' is frozen and cannot be updated'
        super().__init__(message)
'''))
W('w-validator-call', (VA, 'Validator.__call__', '''
    def __call__(self, schema, value, context, /):
        check = self.validate
        outcome = check(value, context)
        return outcome
'''), (VA, 'Validator.__init_subclass__', '''
    def __init_subclass__(cls, raw=False):
        setattr(cls, '__validator_is_raw__', raw)
'''))
