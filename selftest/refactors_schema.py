S, B = 'schema.py', 'fields/base.py'

V('r-comment', '', (S, None, '\n# trailing comment\n'), (B, None, '\n# trailing comment\n'), ('exceptions.py', None, '\n# x\n'))

V('r-noop', '',
  (S, "        name = field._name\n        lazy_validation", "        pass\n        name = field._name\n        lazy_validation"),
  (S, "        field = self._get_field(field_name)\n", "        _unused = 0\n        field = self._get_field(field_name)\n"),
  (B, "        if instance.__config__.frozen:\n            raise FrozenError(instance)\n        if self.frozen", "        None\n        if instance.__config__.frozen:\n            raise FrozenError(instance)\n        if self.frozen"),
  (S, "        if errors:\n            raise oblate.config.validation_error_cls(errors)\n\n        self._context._initialized", "        if False:\n            pass\n        if errors:\n            raise oblate.config.validation_error_cls(errors)\n\n        self._context._initialized"))

V('r-rollback-inplace', '',
  (S, "            self._field_values = old_values\n", "            self._field_values.clear()\n            self._field_values.update(old_values)\n"))

V('r-update-working-copy', '',
  (S, "        old_values = self._field_values.copy()\n        schema_token", "        previous = self._field_values\n        self._field_values = dict(previous)\n        schema_token"),
  (S, "            self._field_values = old_values\n", "            self._field_values = previous\n"))

V('r-ok-flag', '',
  (S, "        except BaseException:\n            # fallback to original state in case update fails\n            self._field_values = old_values\n            raise\n        finally:\n            current_schema.reset(schema_token)",
   "            ok = True\n        finally:\n            if not ok:\n                self._field_values = old_values\n            current_schema.reset(schema_token)"),
  (S, "        schema_token = current_schema.set(self)\n\n        try:\n            for key, value in data.items():",
   "        ok = False\n        schema_token = current_schema.set(self)\n\n        try:\n            for key, value in data.items():"))

V('r-extract-unknown', '',
  (S, "                field = fields.pop(key)\n            except KeyError:\n                if not ignore_extra:\n                    errors.append(FieldError(f'Invalid or unknown field.'))\n            else:\n                # See",
   "                field = fields.pop(key)\n            except KeyError:\n                self._unknown_key(errors, ignore_extra)\n            else:\n                # See"),
  (S, "    def _process_field_value(\n", "    def _unknown_key(self, errors, ignore_extra):\n        if ignore_extra:\n            return\n        errors.append(FieldError('Invalid or unknown field.'))\n\n    def _process_field_value(\n"))

V('r-pop-default', '',
  (S, "            try:\n                field = fields.pop(key)\n            except KeyError:\n                if not ignore_extra:\n                    errors.append(FieldError(f'Invalid or unknown field.'))\n            else:\n                # See comment in _process_field_values() for explanation on how\n                # validators are handled.\n                process_errors = self._process_field_value(field, value, validators)\n                errors.extend(process_errors)\n",
   "            try:\n                field = fields.pop(key, None)\n                if field is not None:\n                    errors += self._process_field_value(field, value, validators)\n                elif not ignore_extra:\n                    errors.append(FieldError('Invalid or unknown field.'))\n"))

V('r-in-check', '',
  (S, "                try:\n                    field = fields[key]\n                except KeyError:\n                    if not ignore_extra:\n                        errors.append(FieldError(f'Invalid or unknown field.'))\n                else:\n                    if field.frozen:\n                        raise FrozenError(field)\n                    errors.extend(self._process_field_value(field, value))\n",
   "                try:\n                    if key not in fields:\n                        if not ignore_extra:\n                            errors.append(FieldError('Invalid or unknown field.'))\n                        continue\n                    field = fields[key]\n                    if field.frozen:\n                        raise FrozenError(field)\n                    for error in self._process_field_value(field, value):\n                        errors.append(error)\n"))

V('r-dump-order', '',
  (S, "        fields = set(self.__fields__.keys())\n        if include is not MISSING and exclude is not MISSING:\n            raise TypeError('include and exclude are mutually exclusive parameters.')\n        if include is not MISSING:\n            fields = fields.intersection(set(include))\n        if exclude is not MISSING:\n            fields = fields.difference(set(exclude))\n",
   "        if include is not MISSING and exclude is not MISSING:\n            raise TypeError('include and exclude are mutually exclusive parameters.')\n        fields = set(self.__fields__)\n        if include is not MISSING:\n            fields &= set(include)\n        elif exclude is not MISSING:\n            fields -= set(exclude)\n"))

V('r-dump-comp', '',
  (S, "            fields = fields.intersection(set(include))\n", "            fields = {name for name in fields if name in include}\n"),
  (S, "            fields = fields.difference(set(exclude))\n", "            fields = {name for name in fields if name not in exclude}\n"))

V('r-dump-in', '',
  (S, "                try:\n                    value = self._field_values[name]\n                except KeyError:  # pragma: no cover\n                    continue\n",
   "                if name not in self._field_values:\n                    continue\n                value = self._field_values[name]\n"))

V('r-dump-values', '',
  (S, "            for name in fields:\n                field = self.__fields__[name]\n                try:\n                    value = self._field_values[name]\n                except KeyError:  # pragma: no cover\n                    continue\n",
   "            for name, value in self._field_values.items():\n                if name not in fields:\n                    continue\n                field = self.__fields__[name]\n"))

V('r-validators-comp', '',
  (B, "        errors: List[FieldError] = []\n\n        for validator in validators:\n            try:\n                validator(context.schema, value, context)\n            except (FieldError, AssertionError, ValueError) as err:\n                if isinstance(err, (AssertionError, ValueError)):\n                    err = FieldError._from_standard_error(err, schema=context.schema, field=self, value=value)\n                errors.append(err)\n\n        return errors\n",
   "        results = [self._run_one(validator, value, context) for validator in validators]\n        return [error for error in results if error is not None]\n\n    def _run_one(self, validator, value, context):\n        try:\n            validator(context.schema, value, context)\n        except FieldError as err:\n            return err\n        except (ValueError, AssertionError) as err:\n            return FieldError._from_standard_error(err, schema=context.schema, field=self, value=value)\n        return None\n"))

V('r-wrap-helper', '',
  (S, "        except (ValueError, AssertionError, FieldError) as err:\n            if not isinstance(err, FieldError):\n                err = FieldError._from_standard_error(err, schema=self, field=field, value=value)\n            errors.extend(validator_errors)\n            errors.append(err)\n",
   "        except FieldError as err:\n            errors.extend(validator_errors)\n            errors.append(err)\n        except (ValueError, AssertionError) as err:\n            errors.extend(validator_errors)\n            errors.append(FieldError._from_standard_error(err, schema=self, field=field, value=value))\n"))

V('r-ctxmgr', '',
  (S, "class _SchemaMeta(type):", "@contextlib.contextmanager\ndef _scoped(var, value):\n    token = var.set(value)\n    try:\n        yield\n    finally:\n        var.reset(token)\n\n\nclass _SchemaMeta(type):"),
  (S, "import collections.abc\n", "import collections.abc\nimport contextlib\n"),
  (S, "        token = current_schema.set(self)\n        try:\n            self._field_values: Dict[str, Any] = {}\n            self._context = SchemaContext(self, state=state)\n            self._prepare_from_data(data, ignore_extra=ignore_extra)\n        finally:\n            current_schema.reset(token)\n",
   "        with _scoped(current_schema, self):\n            self._field_values: Dict[str, Any] = {}\n            self._context = SchemaContext(self, state=state)\n            self._prepare_from_data(data, ignore_extra=ignore_extra)\n"))

V('r-get-value', '',
  (S, "        try:\n            return self._field_values[field._name]\n        except KeyError:\n            if default is not MISSING:\n                return default\n            raise FieldNotSet(field, self, field_name) from None\n",
   "        value = self._field_values.get(field._name, MISSING)\n        if value is MISSING:\n            value = default\n        if value is MISSING:\n            raise FieldNotSet(field, self, field_name)\n        return value\n"))

V('r-get-field', '',
  (S, "        try:\n            return self.__fields__[name]\n        except KeyError:\n            try:\n                return self.__load_fields__[name]\n            except KeyError:\n                raise RuntimeError(f'Invalid field name {name!r}') from None\n",
   "        for registry in (self.__fields__, self.__load_fields__):\n            if name in registry:\n                return registry[name]\n        raise RuntimeError(f'Invalid field name {name!r}')\n"))

V('r-extract-load', '',
  (S, "        for field, value, context, raw in validators:\n            ctx_token = current_context.set(context)\n            field_token = current_field_key.set(field.load_key)\n            schema_token = current_schema.set(self)\n            try:\n                errors.extend(field._run_validators(value, context, raw=raw))\n            finally:\n                current_context.reset(ctx_token)\n                current_field_key.reset(field_token)\n                current_schema.reset(schema_token)\n",
   "        for entry in validators:\n            errors.extend(self._validate_entry(*entry))\n"),
  (S, "    def _process_field_value(\n", "    def _validate_entry(self, field, value, context, raw):\n        tokens = [(current_context, current_context.set(context)), (current_field_key, current_field_key.set(field.load_key))]\n        try:\n            return field._run_validators(value, context, raw=raw)\n        finally:\n            for var, token in reversed(tokens):\n                var.reset(token)\n\n    def _process_field_value(\n"))

V('r-namedtuple', '',
  (S, "class _SchemaMeta(type):", "class _Pending:\n    __slots__ = ('field', 'value', 'context', 'raw')\n\n    def __init__(self, field, value, context, raw):\n        self.field = field\n        self.value = value\n        self.context = context\n        self.raw = raw\n\n\nclass _SchemaMeta(type):"),
  (S, "            validators.append((field, value, context, True))", "            validators.append(_Pending(field, value, context, True))"),
  (S, "                validators.append((field, final_value, context, False))", "                validators.append(_Pending(field, final_value, context, False))"),
  (S, "        for field, value, context, raw in validators:\n            ctx_token = current_context.set(context)\n            field_token = current_field_key.set(field.load_key)", "        for p in validators:\n            field, value, context, raw = p.field, p.value, p.context, p.raw\n            ctx_token = current_context.set(context)\n            field_token = current_field_key.set(field.load_key)"))

V('r-missing-pass', '',
  (S, "                if field.required:\n                    errors.append(field._call_format_error(field.ERR_FIELD_REQUIRED, self, MISSING))\n                if field._default is not MISSING:\n                    self._field_values[field._name] = field._default(self._context, field) \\\n                                                      if callable(field._default) else field._default\n",
   "                default = field._default\n                if field.required:\n                    errors.append(field._call_format_error(field.ERR_FIELD_REQUIRED, self))\n                elif field.has_default():\n                    if callable(default):\n                        default = default(self._context, field)\n                    self._field_values[field._name] = default\n"))

V('r-none-first', '',
  (S, "            if value is None:\n                if not field.none:\n                    errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))\n                elif not validator_errors:\n                    self._field_values[name] = None\n                errors.extend(validator_errors)\n                return errors\n",
   "            if value is None:\n                if field.none:\n                    if not validator_errors:\n                        self._field_values[name] = value\n                    return validator_errors\n                return [field._call_format_error(field.ERR_NONE_DISALLOWED, self, value), *validator_errors]\n"))

V('r-two-phases', '',
  (S, "        for key, value in data.items():\n            token = current_field_key.set(key)\n            try:\n                field = fields.pop(key)\n            except KeyError:\n                if not ignore_extra:\n                    errors.append(FieldError(f'Invalid or unknown field.'))\n            else:\n                # See comment in _process_field_values() for explanation on how\n                # validators are handled.\n                process_errors = self._process_field_value(field, value, validators)\n                errors.extend(process_errors)\n            finally:\n                current_field_key.reset(token)\n\n        for key, field in fields.items():\n",
   "        seen = set()\n        for key, value in data.items():\n            token = current_field_key.set(key)\n            try:\n                field = fields.get(key)\n                if field is None:\n                    if not ignore_extra:\n                        errors.append(FieldError(f'Invalid or unknown field.'))\n                    continue\n                seen.add(key)\n                errors.extend(self._process_field_value(field, value, validators))\n            finally:\n                current_field_key.reset(token)\n\n        for key, field in fields.items():\n            if key in seen:\n                continue\n"))

V('r-copy-new', '',
  (S, "        schema = copy.copy(self)\n        schema._field_values = self._field_values.copy()\n", "        schema = copy.copy(self)\n        schema._field_values = dict(self._field_values)\n"))

V('r-frozen-helper', '',
  (B, "        if instance.__config__.frozen:\n            raise FrozenError(instance)\n        if self.frozen:\n            raise FrozenError(self)\n", "        self._check_frozen(instance)\n"),
  (B, "    def _unbind(self) -> None:", "    def _check_frozen(self, instance):\n        entity = instance if instance.__config__.frozen else (self if self.frozen else None)\n        if entity is not None:\n            raise FrozenError(entity)\n\n    def _unbind(self) -> None:"))

V('r-set-order', '',
  (B, "            current_schema.reset(schema_token)\n            current_field_key.reset(field_name)\n", "            current_field_key.reset(field_name)\n            current_schema.reset(schema_token)\n"))

V('r-ternary-ignore', '',
  (S, "        if ignore_extra is MISSING:\n            ignore_extra = self.__config__.ignore_extra\n\n        fields = self.__load_fields__.copy()\n", "        ignore_extra = self.__config__.ignore_extra if ignore_extra is MISSING else ignore_extra\n        fields = dict(self.__load_fields__)\n"))

V('r-format-error', '',
  (B, "        if error is None:\n            # if format_error returns None, error code is not covered\n            # by the overriden implementation so fallback to default errors\n            error = self._get_default_error_message(error_code, ctx)\n\n        if isinstance(error, str):\n            return FieldError(error)\n        if isinstance(error, FieldError):\n            return error\n        else:\n            raise TypeError('format_error() must return a FieldError or a str')  # pragma: no cover\n",
   "        if error is None:\n            error = self._get_default_error_message(error_code, ctx)\n        if isinstance(error, FieldError):\n            return error\n        if not isinstance(error, str):\n            raise TypeError('format_error() must return a FieldError or a str')\n        return FieldError(error)\n"))

V('r-errors-tuple', '',
  (S, "        errors: List[FieldError] = []\n        validator_errors: List[FieldError] = []\n        context = LoadContext", "        errors, validator_errors = [], []\n        context = LoadContext"))

V('r-walrus', '',
  (B, "            errors = instance._process_field_value(self, value)\n            if errors:\n", "            if errors := instance._process_field_value(self, value):\n"))

V('r-while', '',
  (S, "        for field, value, context, raw in validators:\n", "        pending = list(validators)\n        while pending:\n            field, value, context, raw = pending.pop(0)\n"))
