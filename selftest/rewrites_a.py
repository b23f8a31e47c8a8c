# Whole functions written again in another style; every check must stay quiet.
import ast as _ast, textwrap as _tw


def seg(src, qual):
    """(first line, end line, indentation) of a function in the text of its module."""
    node = _ast.parse(src)
    for part in qual.split('.'):
        node = [n for n in node.body if getattr(n, 'name', None) == part][-1]
    first = min([node.lineno] + [d.lineno for d in getattr(node, 'decorator_list', [])])
    return first - 1, node.end_lineno, node.col_offset


def same_signature(old, qual, new):
    """The new text with the signature (annotations, decorators) of the function it replaces."""
    old, new = _tw.dedent(old), _tw.dedent(new).strip('\n') + '\n'
    a, b = _ast.parse(old).body[0], _ast.parse(new).body[0]
    if not (isinstance(a, _ast.FunctionDef) and isinstance(b, _ast.FunctionDef) and a.name == b.name):
        return new
    assert [x.arg for x in a.args.posonlyargs + a.args.args + a.args.kwonlyargs] == \
        [x.arg for x in b.args.posonlyargs + b.args.args + b.args.kwonlyargs], qual
    head = '\n'.join(old.split('\n')[:a.body[0].lineno - 1])
    while not head.rstrip().endswith(':'):
        head = head.rstrip()[:-1] if not head.rstrip().endswith('\n') else head
        head = head[:head.rindex('\n')] if '#' in head.rsplit('\n', 1)[-1] else head
    return head.rstrip() + '\n' + '\n'.join(new.split('\n')[b.body[0].lineno - 1:])


def W(name, *edits):
    texts = {}
    for file, what, new in edits:
        src = texts.setdefault(file, open(f'/repo/oblate/{file}').read())
        if what.replace('.', '').replace('_', 'a').isalnum() and ('def ' in new or 'class ' in new):
            i, j, col = seg(src, what)
            lines = src.split('\n')
            new = _tw.indent(same_signature('\n'.join(lines[i:j]) + '\n', what, new), ' ' * col)
            texts[file] = '\n'.join(lines[:i]) + '\n' + new + '\n'.join(lines[j:])
        else:
            assert src.count(what) == 1, (name, what)
            texts[file] = src.replace(what, new)
    V(name, '', *[(f, open(f'/repo/oblate/{f}').read(), t) for f, t in texts.items()])


S, B = 'schema.py', 'fields/base.py'

W('w-prepare-phases', (S, 'Schema._prepare_from_data', '''
    def _prepare_from_data(self, data, *, ignore_extra=MISSING):
        data = self.preprocess_data(data)
        if not isinstance(data, collections.abc.Mapping):
            raise TypeError(f'{type(self).__qualname__}.preprocess_data must return a mapping, not {type(data)}')
        if ignore_extra is MISSING:
            ignore_extra = self.__config__.ignore_extra

        pending = []
        remaining = dict(self.__load_fields__)
        errors = self._load_given(data, remaining, pending, ignore_extra)
        errors += self._load_missing(remaining)
        errors += self._run_pending(pending)

        if errors:
            raise oblate.config.validation_error_cls(errors)

        self._context._initialized = True
        self.__schema_post_init__()

    def _load_given(self, data, remaining, pending, ignore_extra):
        found = []
        for key, value in data.items():
            token = current_field_key.set(key)
            try:
                if key in remaining:
                    found += self._process_field_value(remaining.pop(key), value, pending)
                elif not ignore_extra:
                    found.append(FieldError('Invalid or unknown field.'))
            finally:
                current_field_key.reset(token)
        return found

    def _load_missing(self, remaining):
        found = []
        for key, field in remaining.items():
            token = current_field_key.set(key)
            try:
                if field.required:
                    found.append(field._call_format_error(field.ERR_FIELD_REQUIRED, self, MISSING))
                elif field._default is not MISSING:
                    default = field._default
                    self._field_values[field._name] = default(self._context, field) if callable(default) else default
                elif field.has_default():
                    pass
            except FieldError as err:
                found.append(err)
            except (ValueError, AssertionError) as err:
                found.append(FieldError._from_standard_error(err, schema=self, field=field))
            finally:
                current_field_key.reset(token)
        return found

    def _run_pending(self, pending):
        found = []
        for field, value, context, raw in pending:
            tokens = (current_context.set(context), current_field_key.set(field.load_key), current_schema.set(self))
            try:
                found += field._run_validators(value, context, raw=raw)
            finally:
                for var, token in zip((current_context, current_field_key, current_schema), tokens):
                    var.reset(token)
        return found
'''))

W('w-prepare-exitstack', (S, "import copy\n", "import copy\nimport contextlib\n"),
  (S, "class _SchemaMeta(type):\n", '''@contextlib.contextmanager
def _entered(var, value):
    token = var.set(value)
    try:
        yield
    finally:
        var.reset(token)


class _SchemaMeta(type):
'''),
  (S, 'Schema._prepare_from_data', '''
    def _prepare_from_data(self, data, *, ignore_extra=MISSING):
        data = self.preprocess_data(data)
        if not isinstance(data, collections.abc.Mapping):
            raise TypeError(f'{self.__class__.__qualname__}.preprocess_data must return a mapping')
        ignore_extra = self.__config__.ignore_extra if ignore_extra is MISSING else ignore_extra
        validators = []
        errors = []
        seen = set()
        for key, value in data.items():
            with _entered(current_field_key, key):
                field = self.__load_fields__.get(key)
                if field is None:
                    if not ignore_extra:
                        errors.append(FieldError('Invalid or unknown field.'))
                    continue
                seen.add(key)
                errors.extend(self._process_field_value(field, value, validators))

        for key, field in self.__load_fields__.items():
            if key in seen:
                continue
            with _entered(current_field_key, key):
                try:
                    if field.required:
                        errors.append(field._call_format_error(field.ERR_FIELD_REQUIRED, self, MISSING))
                    if field.has_default():
                        default = field._default
                        if callable(default):
                            default = default(self._context, field)
                        self._field_values[field._name] = default
                except (ValueError, AssertionError, FieldError) as err:
                    errors.append(err if isinstance(err, FieldError)
                                  else FieldError._from_standard_error(err, schema=self, field=field))

        for field, value, context, raw in validators:
            with contextlib.ExitStack() as stack:
                stack.enter_context(_entered(current_context, context))
                stack.enter_context(_entered(current_field_key, field.load_key))
                stack.enter_context(_entered(current_schema, self))
                errors.extend(field._run_validators(value, context, raw=raw))

        if not errors:
            self._context._initialized = True
            self.__schema_post_init__()
            return
        raise oblate.config.validation_error_cls(errors)
'''),
  (S, 'Schema.update', '''
    def update(self, data, /, *, ignore_extra=MISSING):
        if self.__config__.frozen:
            raise FrozenError(self)
        ignore_extra = self.__config__.ignore_extra if ignore_extra is MISSING else ignore_extra
        backup = dict(self._field_values)
        with _entered(current_schema, self):
            try:
                errors = []
                for key in data:
                    with _entered(current_field_key, key):
                        if key not in self.__load_fields__:
                            if not ignore_extra:
                                errors.append(FieldError('Invalid or unknown field.'))
                            continue
                        field = self.__load_fields__[key]
                        if field.frozen:
                            raise FrozenError(field)
                        errors += self._process_field_value(field, data[key])
                if errors:
                    raise oblate.config.validation_error_cls(errors)
            except BaseException:
                self._field_values = backup
                raise
'''))

W('w-process-split', (S, 'Schema._process_field_value', '''
    def _process_field_value(self, field, value, validators=None):
        context = LoadContext(field=field, value=value, schema=self)
        token = current_context.set(context)
        try:
            if validators is None:
                return self._process_now(field, value, context)
            return self._process_lazily(field, value, context, validators)
        finally:
            current_context.reset(token)

    def _deserialize(self, field, value, context):
        if value is None:
            if field.none:
                return True, None
            return False, field._call_format_error(field.ERR_NONE_DISALLOWED, self, None)
        return True, field.value_load(value, context)

    def _as_field_error(self, err, field, value):
        if isinstance(err, FieldError):
            return err
        return FieldError._from_standard_error(err, schema=self, field=field, value=value)

    def _process_lazily(self, field, value, context, validators):
        if field._raw_validators:
            validators.append((field, value, context, True))
        try:
            loaded, result = self._deserialize(field, value, context)
        except (ValueError, AssertionError, FieldError) as err:
            return [self._as_field_error(err, field, value)]
        if not loaded:
            return [result]
        self._field_values[field._name] = result
        if value is not None:
            validators.append((field, result, context, False))
        return []

    def _process_now(self, field, value, context):
        problems = []
        try:
            problems += field._run_validators(value, context, raw=True)
            loaded, result = self._deserialize(field, value, context)
        except (ValueError, AssertionError, FieldError) as err:
            return [*problems, self._as_field_error(err, field, value)]
        if not loaded:
            return [result, *problems]
        if value is not None:
            problems += field._run_validators(result, context, raw=False)
        if not problems:
            self._field_values[field._name] = result
        return problems
'''))

W('w-process-assigned-after', (S, 'Schema._process_field_value', '''
    def _process_field_value(self, field, value, validators=None):
        errors = []
        context = LoadContext(schema=self, field=field, value=value)
        token = current_context.set(context)
        result = MISSING
        try:
            if validators is not None:
                if field._raw_validators:
                    validators.append((field, value, context, True))
            else:
                errors.extend(field._run_validators(value, context, raw=True))
            if value is not None:
                result = field.value_load(value, context)
                if validators is not None:
                    validators.append((field, result, context, False))
                else:
                    errors.extend(field._run_validators(result, context))
            elif field.none:
                result = None
            else:
                errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
        except FieldError as err:
            errors.append(err)
        except (ValueError, AssertionError) as err:
            errors.append(FieldError._from_standard_error(err, schema=self, field=field, value=value))
        finally:
            current_context.reset(token)
        if not errors and result is not MISSING:
            self._field_values[field._name] = result
        return errors
'''))

W('w-update-scratch', (S, 'Schema.update', '''
    def update(self, data, /, *, ignore_extra=MISSING):
        if self.__config__.frozen:
            raise FrozenError(self)
        if ignore_extra is MISSING:
            ignore_extra = self.__config__.ignore_extra

        token = current_schema.set(self)
        committed = self._field_values
        try:
            self._field_values = committed.copy()
            problems = [error for key, value in data.items() for error in self._update_one(key, value, ignore_extra)]
            if problems:
                raise oblate.config.validation_error_cls(problems)
            committed = self._field_values
        finally:
            self._field_values = committed
            current_schema.reset(token)

    def _update_one(self, key, value, ignore_extra):
        token = current_field_key.set(key)
        try:
            field = self.__load_fields__.get(key, None)
            if field is not None:
                if field.frozen:
                    raise FrozenError(field)
                return self._process_field_value(field, value)
            return [] if ignore_extra else [FieldError('Invalid or unknown field.')]
        finally:
            current_field_key.reset(token)
'''))

W('w-dump-split', (S, 'Schema.dump', '''
    def dump(self, *, include=MISSING, exclude=MISSING):
        if include is not MISSING and exclude is not MISSING:
            raise TypeError('include and exclude are mutually exclusive parameters.')
        names = set(self.__fields__)
        if include is not MISSING:
            wanted = set(include)
            names = {name for name in names if name in wanted}
        elif exclude is not MISSING:
            names.difference_update(exclude)

        out, errors = {}, []
        token = current_schema.set(self)
        try:
            for name in names & self._field_values.keys():
                self._dump_one(self.__fields__[name], self._field_values[name], names, out, errors)
            if errors:
                raise oblate.config.validation_error_cls(errors)
            return out
        finally:
            current_schema.reset(token)

    def _dump_one(self, field, value, names, out, errors):
        context = DumpContext(schema=self, field=field, value=value, included_fields=names)
        key_token = current_field_key.set(field.load_key)
        context_token = current_context.set(context)
        try:
            dumped = field.value_dump(value, context)
        except FieldError as err:
            errors.append(err)
        except (ValueError, AssertionError) as err:
            errors.append(FieldError._from_standard_error(err, schema=self, field=field, value=value))
        else:
            out[field.dump_key] = dumped
        finally:
            current_context.reset(context_token)
            current_field_key.reset(key_token)
'''))

W('w-init-subclass', (S, 'Schema.__init_subclass__', '''
    def __init_subclass__(cls) -> None:
        from oblate.fields.base import Field

        fields = {}
        if hasattr(cls, '__fields__'):
            fields.update(cls.__fields__)
            for base in cls.__mro__[:0:-1]:
                own = base.__dict__
                for name, field in own.get('__fields__', {}).items():
                    if own.get(name) is field:
                        fields[name] = field
        cls.__fields__ = fields

        members = dict(vars(cls))
        for name, member in list(members.items()):
            if isinstance(member, Field):
                member._bind(name, cls)
                fields[name] = member
            elif callable(member) and hasattr(member, '__validator_field__'):
                cls._attach_validator(member, members, Field)

        cls.__load_fields__ = dict((field.load_key, field) for field in fields.values())
        if cls.__config__.add_repr and '__repr__' not in members:
            cls.__repr__ = _schema_repr

    @classmethod
    def _attach_validator(cls, member, members, Field):
        target = member.__validator_field__
        if isinstance(target, Field) and target._schema in cls.__mro__[1:]:
            target = target._name
        if isinstance(target, str):
            if target not in members and target in cls.__fields__:
                fresh = cls.__fields__[target].copy()
                fresh._bind(target, cls)
                setattr(cls, target, fresh)
                members[target] = fresh
                cls.__fields__[target] = fresh
            target = members.get(target, target)
        if not isinstance(target, Field):
            raise TypeError(f'Validator {member.__name__} got an unknown field {target}')
        target.add_validator(member)
'''))

W('w-meta-config', (S, '_SchemaMeta.__new__', '''
    def __new__(cls, clsname, bases, attrs):
        own = [value for value in attrs.values() if inspect.isclass(value) and issubclass(value, SchemaConfig)]
        if own:
            config = own[0]
        else:
            inherited = [base.__config__ for base in bases if issubclass(base, Schema) and hasattr(base, '__config__')]
            config = inherited[-1] if inherited else SchemaConfig

        namespace = dict(attrs)
        namespace['__config__'] = config
        if config.slotted and '__slots__' not in namespace:
            namespace['__slots__'] = ()
        return super().__new__(cls, clsname, bases, namespace)
'''))

W('w-schema-init', (S, 'Schema.__init__', '''
    def __init__(self, data, /, *, state=None, ignore_extra=MISSING):
        if isinstance(data, collections.abc.Mapping):
            self._field_values = {}
            self._context = SchemaContext(self, state)
            token = current_schema.set(self)
            try:
                self._prepare_from_data(data, ignore_extra=ignore_extra)
            finally:
                current_schema.reset(token)
        else:
            raise TypeError(f'data must be a mapping, not {type(data)}')
'''), (S, 'Schema._get_field', '''
    def _get_field(self, name):
        for table in (self.__fields__, self.__load_fields__):
            if name in table:
                return table[name]
        raise RuntimeError(f'Invalid field name {name!r}')
'''), (S, 'Schema.copy', '''
    def copy(self):
        new = copy.copy(self)
        new._field_values = dict(self._field_values)
        new._context = self._context._copy(new)
        return new
'''), (S, 'Schema.get_value_for', '''
    def get_value_for(self, field_name, default=MISSING, /):
        field = self._get_field(field_name)
        values = self._field_values
        if field._name in values:
            return values[field._name]
        if default is MISSING:
            raise FieldNotSet(field, self, field_name)
        return default
'''))

W('w-field-init', (B, 'Field.__init__', '''
    def __init__(self, *, none=False, required=True, frozen=False, default=MISSING, validators=MISSING,
                 extras=MISSING, dump_key=MISSING, load_key=MISSING, data_key=MISSING):
        if data_key is not MISSING:
            load_key = dump_key = data_key
        if default is not MISSING:
            required = False
        self.none, self.frozen, self.required = none, frozen, required
        self.extras = {} if extras is MISSING else extras
        self._load_key, self._dump_key, self._default = load_key, dump_key, default
        self._validators, self._raw_validators = [], []
        self._unbind()
        for validator in (() if validators is MISSING else validators):
            self.add_validator(validator)
'''))

W('w-field-set', (B, 'Field.__set__', '''
    def __set__(self, instance, value):
        frozen = instance if instance.__config__.frozen else self if self.frozen else None
        if frozen is not None:
            raise FrozenError(frozen)
        tokens = [(current_schema, current_schema.set(instance)), (current_field_key, current_field_key.set(self.load_key))]
        try:
            if errors := instance._process_field_value(self, value):
                raise oblate.config.validation_error_cls(errors)
        finally:
            while tokens:
                var, token = tokens.pop()
                var.reset(token)
'''))

W('w-field-validators', (B, 'Field._run_validators', '''
    def _run_validators(self, value, context, raw=False):
        return list(self._failures(value, context, self._raw_validators if raw else self._validators))

    def _failures(self, value, context, validators):
        for validator in validators:
            try:
                validator(context.schema, value, context)
            except FieldError as err:
                yield err
            except (AssertionError, ValueError) as err:
                yield FieldError._from_standard_error(err, schema=context.schema, field=self, value=value)
'''), (B, 'Field.add_validator', '''
    def add_validator(self, validator, *, raw=False):
        if not callable(validator):
            raise TypeError('validator must be a callable or Validator class instance')
        self._registry(getattr(validator, '__validator_is_raw__', raw)).append(validator)

    def _registry(self, raw):
        return self._raw_validators if raw else self._validators
'''), (B, 'Field.remove_validator', '''
    def remove_validator(self, validator, *, raw=False):
        if not callable(validator):
            raise TypeError('validator must be a callable or Validator class instance')
        registry = self._registry(getattr(validator, '__validator_is_raw__', raw))
        if validator in registry:
            registry.remove(validator)
'''), (B, 'Field.clear_validators', '''
    def clear_validators(self, *, raw=MISSING):
        if raw is MISSING or raw:
            self._raw_validators.clear()
        if raw is MISSING or not raw:
            self._validators.clear()
'''), (B, 'Field.walk_validators', '''
    def walk_validators(self, *, raw=MISSING):
        if raw is MISSING:
            yield from [*self._validators, *self._raw_validators]
        else:
            yield from self._registry(raw)
'''))

W('w-field-errors', (B, 'Field._call_format_error', '''
    def _call_format_error(self, error_code, schema, value=MISSING, metadata=MISSING):
        context = ErrorContext(error_code=error_code, schema=schema, field=self, value=value, metadata=metadata)
        error = self.format_error(error_code, context)
        if error is None:
            error = self._get_default_error_message(error_code, context)
        match error:
            case FieldError():
                return error
            case str():
                return FieldError(error)
        raise TypeError('format_error() must return a FieldError or a str')
'''), (B, 'Field._get_default_error_message', '''
    def _get_default_error_message(self, error_code, context, /):
        messages = {
            self.ERR_VALIDATION_FAILED: 'Validation failed for this field.',
            self.ERR_NONE_DISALLOWED: 'This field must not be None.',
            self.ERR_FIELD_REQUIRED: 'This field is required.',
        }
        return messages.get(error_code, 'An unknown error occurred while validating this field.')
'''), (B, 'Field.copy', '''
    def copy(self):
        new = copy.copy(self)
        new._validators, new._raw_validators = list(self._validators), list(self._raw_validators)
        new._unbind()
        return new
'''))
