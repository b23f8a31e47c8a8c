S, B, C, VAL, CTX = 'schema.py', 'fields/base.py', 'configs.py', 'validate.py', 'contexts.py'

V('c-meta-next', '',
  (S, '''        config = SchemaConfig
        found = False
        for _, value in attrs.items():
            # Search for Config subclass in the class being created
            if inspect.isclass(value) and issubclass(value, SchemaConfig):
                found = True
                config = value
                break

        if not found:
''', '''        config = next((v for v in attrs.values() if isinstance(v, type) and issubclass(v, SchemaConfig)), None)
        if config is None:
            config = SchemaConfig
'''))
V('c-meta-helper', '',
  (S, '''        config = SchemaConfig
        found = False
        for _, value in attrs.items():
            # Search for Config subclass in the class being created
            if inspect.isclass(value) and issubclass(value, SchemaConfig):
                found = True
                config = value
                break

        if not found:
            # If class doesn't have a Config defined, look it up in
            # the bases of class
            for base in bases:
                if issubclass(base, Schema) and hasattr(base, '__config__'):
                    config = base.__config__

        if config.slotted:
            attrs.setdefault('__slots__', ())
''', '''        config = _find_config(bases, attrs)
        if config.slotted and '__slots__' not in attrs:
            attrs['__slots__'] = ()
'''),
  (S, '''class _SchemaMeta(type):
''', '''def _find_config(bases, attrs):
    for value in attrs.values():
        if inspect.isclass(value) and issubclass(value, SchemaConfig):
            return value
    config = SchemaConfig
    for base in bases:
        if issubclass(base, Schema):
            config = getattr(base, '__config__', config)
    return config


class _SchemaMeta(type):
'''))
V('c-subclass-split', '',
  (S, '''            elif callable(member) and hasattr(member, '__validator_field__'):
                field = member.__validator_field__
                if isinstance(field, Field) and field._schema in cls.__mro__[1:]:
                    field = field._name
                if isinstance(field, str):
                    if field not in members and field in cls.__fields__:
                        # The field of parent schema must not be modified so
                        # the validator is added to a copy of it.
                        inherited = cls.__fields__[field].copy()
                        inherited._bind(field, cls)
                        setattr(cls, field, inherited)
                        cls.__fields__[field] = members[field] = inherited
                    field = members.get(field, field)
                if not isinstance(field, Field):
                    raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover

                field.add_validator(member)
''', '''                continue
            target = getattr(member, '__validator_field__', None) if callable(member) else None
            if target is None:
                continue
            cls._field_for_validator(member, target, members).add_validator(member)
'''),
  (S, '''        if cls.__config__.add_repr and '__repr__' not in members:
            cls.__repr__ = _schema_repr  # type: ignore
''', '''        if '__repr__' in members or not cls.__config__.add_repr:
            return
        cls.__repr__ = _schema_repr  # type: ignore

    @classmethod
    def _field_for_validator(cls, member, field, members):
        from oblate.fields.base import Field

        if isinstance(field, Field) and field._schema in cls.__mro__[1:]:
            field = field._name
        if isinstance(field, str):
            if field not in members and field in cls.__fields__:
                inherited = cls.__fields__[field].copy()
                inherited._bind(field, cls)
                setattr(cls, field, inherited)
                cls.__fields__[field] = members[field] = inherited
            field = members.get(field, field)
        if not isinstance(field, Field):
            raise TypeError(f'Validator {member.__name__} got an unknown field {field}')
        return field
'''))
V('c-load-fields-loop', '',
  (S, '''        cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
''', '''        load_fields = {}
        for name in cls.__fields__:
            declared = cls.__fields__[name]
            load_fields[declared.load_key] = declared
        cls.__load_fields__ = load_fields
'''))
V('c-register-helper', '',
  (B, '''        raw = getattr(validator, '__validator_is_raw__', raw)
        self._raw_validators.append(validator) if raw else self._validators.append(validator)
''', '''        self._registry(validator, raw).append(validator)

    def _registry(self, validator, raw):
        try:
            raw = validator.__validator_is_raw__
        except AttributeError:
            pass
        if raw:
            return self._raw_validators
        return self._validators
'''),
  (B, '''        raw = getattr(validator, '__validator_is_raw__', raw)
        try:
            self._raw_validators.remove(validator) if raw else self._validators.remove(validator)
        except ValueError:  # pragma: no cover
            pass
''', '''        registered = self._registry(validator, raw)
        if validator in registered:
            registered.remove(validator)
'''))
V('c-walk-chain', '',
  (B, '''        if raw is MISSING:
            validators = self._validators.copy()
            validators.extend(self._raw_validators)
        elif raw:
            validators = self._raw_validators
        else:
            validators = self._validators

        for validator in validators:
            yield validator
''', '''        if raw is MISSING or not raw:
            yield from self._validators
        if raw is MISSING or raw:
            yield from self._raw_validators
'''))
V('c-clear-rebind', '',
  (B, '''        if raw is MISSING:
            self._validators.clear()
            self._raw_validators.clear()
        elif raw:
            self._raw_validators.clear()
        else:
            self._validators.clear()
''', '''        if raw is MISSING or raw:
            self._raw_validators = []
        if raw is MISSING or not raw:
            self._validators = []
'''))
V('c-copy-slots', '',
  (B, '''        field._validators = self._validators.copy()
        field._raw_validators = self._raw_validators.copy()
        field._unbind()
''', '''        field._validators = list(self._validators)
        field._raw_validators = self._raw_validators[:]
        field._name = field._schema = MISSING
'''))
V('c-bind-order', '',
  (B, '''        if self._is_bound():
            raise RuntimeError(f"Field {schema.__name__}.{name} is already bound to {self._schema.__name__}.{self._name}")

        self._name = name
        self._schema = schema
''', '''        if self._name is MISSING or self._schema is MISSING:
            self._schema, self._name = schema, name
            return
        raise RuntimeError(f"Field {schema.__name__}.{name} is already bound to {self._schema.__name__}.{self._name}")
'''))
V('c-decorator-partial', '',
  (VAL, '''    def __wrapper(func: ValidatorCallbackT[SchemaT, InputT]) -> ValidatorCallbackT[SchemaT, InputT]:
        func.__validator_field__ = field  # type: ignore
        func.__validator_is_raw__ = raw  # type: ignore
        return func

    return __wrapper
''', '''    def mark(func):
        setattr(func, '__validator_is_raw__', raw)
        setattr(func, '__validator_field__', field)
        return func

    return mark
'''))
V('c-config-property', '',
  (C, '''        try:
            return instance._values[self._name]
        except KeyError:  # pragma: no cover
            return self._default
''', '''        return instance._values.get(self._name, self._default)
'''),
  (C, '''        if self._setter:
            value = self._setter(instance, value)

        instance._values[self._name] = value
''', '''        setter = self._setter
        instance._values[self._name] = setter(instance, value) if setter is not None else value
'''))
V('c-config-check', '',
  (C, '''        if not issubclass(value, ValidationError):
            raise TypeError('validation_error_cls must be a subclass of ValidationError')
        return value
''', '''        if isinstance(value, type) and issubclass(value, ValidationError):
            return value
        raise TypeError('validation_error_cls must be a subclass of ValidationError')
'''))
V('c-inherit-mro', '',
  (S, '''            cls.__fields__ = cls.__fields__.copy()
            for base in reversed(cls.__mro__[1:]):
                # Fields are inherited in the same order as other attributes
                for name, field in vars(base).get('__fields__', {}).items():
                    if vars(base).get(name) is field:
                        cls.__fields__[name] = field
''', '''            fields = dict(cls.__fields__)
            for base in cls.__mro__[:0:-1]:
                declared = base.__dict__.get('__fields__')
                if declared:
                    fields.update((n, f) for n, f in declared.items() if base.__dict__.get(n) is f)
            cls.__fields__ = fields
'''))
