EX, BA, PR, ST, CT, NE, TY = 'exceptions.py', 'fields/base.py', 'fields/primitive.py', 'fields/structs.py', 'contexts.py', 'fields/nesting.py', 'fields/typings.py'
FLAT = '''        for error in errors:
            if not isinstance(error.message, (list, tuple, set)):
                continue

            self.errors.remove(error)
            for message in error.message:  # type: ignore
                self.errors.append(error._copy_with(message))
'''
COPY = '''        copy = self.__class__.__new__(self.__class__)
        copy.message = message
        copy.state = self.state
        copy.context = self.context
        copy.schema = self.schema
        copy._key = self._key
        copy.args = (message,)
        return copy
'''
ENS = '''        if isinstance(obj, FieldError):
            return self._ensure_string(obj.message)
        elif isinstance(obj, dict):
            new_dict: Dict[str, Any] = {}
            for k, v in obj.items():  # type: ignore
                new_dict[k] = self._ensure_string(v)  # type: ignore
            return new_dict
        elif isinstance(obj, list):
            new_list: List[Any] = []
            for item in obj:  # type: ignore
                new_list.append(self._ensure_string(item))
            return new_list
        return str(obj)
'''
RAW = '''            if error.key in out:
                out[error.key].append(value)
            else:
                out[error.key] = [value]
'''
# ---- same behaviour
V('e-flatten-rebuild', '', (EX, FLAT, '''        flat: List[FieldError] = []
        for error in errors:
            if isinstance(error.message, (list, tuple, set)):
                flat.extend(error._copy_with(message) for message in error.message)
            else:
                flat.append(error)
        self.errors = flat
'''))
V('e-flatten-copy', '', (EX, FLAT, '''        for error in errors.copy():
            if isinstance(error.message, (list, set)) or isinstance(error.message, tuple):
                self.errors.remove(error)
                self.errors += [error._copy_with(message) for message in error.message]
'''))
V('e-copy-loop', '', (EX, COPY, '''        copy = self.__class__.__new__(self.__class__)
        for name in ('state', 'context', 'schema', '_key'):
            setattr(copy, name, getattr(self, name))
        copy.message, copy.args = message, (message,)
        return copy
'''))
V('e-copy-type', '', (EX, COPY, '''        cls = type(self)
        other = cls.__new__(cls, message)
        other.message, other.state = message, self.state
        other.context, other.schema, other._key = self.context, self.schema, self._key
        return other
'''))
V('e-ensure-comprehension', '', (EX, ENS, '''        if isinstance(obj, FieldError):
            obj = obj.message
        if isinstance(obj, dict):
            return {k: self._ensure_string(v) for k, v in obj.items()}
        if isinstance(obj, list):
            return [self._ensure_string(item) for item in obj]
        return str(obj)
'''))
V('e-raw-setdefault', '', (EX, RAW, "            out.setdefault(error.key, []).append(value)\n"))
V('e-raw-try', '', (EX, RAW, '''            try:
                out[error.key].append(value)
            except KeyError:
                out[error.key] = [value]
'''))
V('e-raw-get', '', (EX, RAW, "            out[error.key] = out.get(error.key, []) + [value]\n"))
V('e-format-flow', '', (BA, '''        error = self.format_error(error_code, ctx)

        if error is None:
            # if format_error returns None, error code is not covered
            # by the overriden implementation so fallback to default errors
            error = self._get_default_error_message(error_code, ctx)

        if isinstance(error, str):
            return FieldError(error)
        if isinstance(error, FieldError):
            return error
        else:
            raise TypeError('format_error() must return a FieldError or a str')  # pragma: no cover
''', '''        result = self.format_error(error_code, ctx)
        if result is None:
            result = self._get_default_error_message(error_code, ctx)
        if isinstance(result, FieldError):
            return result
        if not isinstance(result, str):
            raise TypeError('format_error() must return a FieldError or a str')  # pragma: no cover
        return FieldError(result)
'''))
V('e-default-table', '', (BA, '''        if error_code == self.ERR_VALIDATION_FAILED:
            return 'Validation failed for this field.'
        if error_code == self.ERR_NONE_DISALLOWED:
            return 'This field must not be None.'
        if error_code == self.ERR_FIELD_REQUIRED:
            return 'This field is required.'

        return 'An unknown error occurred while validating this field.'  # pragma: no cover
''', '''        messages = {
            self.ERR_VALIDATION_FAILED: 'Validation failed for this field.',
            self.ERR_NONE_DISALLOWED: 'This field must not be None.',
            self.ERR_FIELD_REQUIRED: 'This field is required.',
        }
        return messages.get(error_code, 'An unknown error occurred while validating this field.')
'''))
V('e-message-join', '', (EX, "            builder.append(f'{\" \"*indent}│')\n", "            pad = ' ' * indent\n            builder.append(pad + '│')\n"))
V('e-std-error-flow', '', (EX, '''        message = str(err)
        if not message:
            return field._call_format_error(field.ERR_VALIDATION_FAILED, schema, value)
        else:
            return cls(message)
''', '''        text = str(err)
        if text:
            return cls(text)
        return field._call_format_error(field.ERR_VALIDATION_FAILED, schema, value)
'''))
# ---- bugs
V('em-flatten-no-tuple', 'E02', (EX, "(list, tuple, set)", "(list, set)"))
V('em-flatten-skips-empty', 'E02', (EX, FLAT, FLAT.replace("            self.errors.remove(error)\n", "            if not error.message:\n                continue\n            self.errors.remove(error)\n")))
V('em-flatten-drops-falsy', 'E02', (EX, FLAT, FLAT.replace("                self.errors.append(", "                if message:\n                    self.errors.append(").replace("if message:\n                    self.errors.append(error._copy_with(message))", "if message:\n                    self.errors.append(error._copy_with(message))")))
V('em-copy-no-context', 'E02', (EX, "        copy.context = self.context\n", "        copy.context = current_context.get(None)\n"))
V('em-copy-no-state', 'E02', (EX, "        copy.state = self.state\n", "        copy.state = None\n"))
V('em-iterates-while-removing', 'E02', (EX, "        for error in errors:\n            if not", "        for error in self.errors:\n            if not"))
V('em-ensure-falsy', 'E02', (EX, "                new_list.append(self._ensure_string(item))\n", "                if item:\n                    new_list.append(self._ensure_string(item))\n"))
V('em-raw-merges', 'E02', (EX, RAW, "            if value not in out.setdefault(error.key, []):\n                out[error.key].append(value)\n"))
V('em-raw-extends', 'E02', (EX, RAW, "            out.setdefault(error.key, []).extend(value if isinstance(value, list) else [value])\n"))
V('em-message-level', 'E02', (EX, "                errors = [errors]\n", "                pass\n"))
V('em-raw-str-dict', 'E02', (EX, "        elif isinstance(obj, dict):\n            new_dict: Dict[str, Any] = {}\n", "        elif isinstance(obj, dict) and obj:\n            new_dict: Dict[str, Any] = {}\n"))
V('em-format-falsy', 'E01', (BA, "        if error is None:\n            # if", "        if not error:\n            # if"))
V('em-format-fe-wrapped', 'E01', (BA, "        if isinstance(error, FieldError):\n            return error\n", "        if isinstance(error, FieldError):\n            return FieldError(error.message)\n"))
V('em-required-direct', 'E01', ('schema.py', "errors.append(field._call_format_error(field.ERR_FIELD_REQUIRED, self, MISSING))", "errors.append(FieldError('This field is required.'))"))
V('em-none-value', 'E01', ('schema.py', "field.ERR_NONE_DISALLOWED, self, None)", "field.ERR_NONE_DISALLOWED, self)"))
V('em-std-no-value', 'E01', ('schema.py', "err = FieldError._from_standard_error(err, schema=self, field=field, value=value)\n            errors.extend(validator_errors)", "err = FieldError._from_standard_error(err, schema=self, field=field)\n            errors.extend(validator_errors)"))
V('em-validator-schema', 'E01', (BA, "_from_standard_error(err, schema=context.schema, field=self, value=value)", "_from_standard_error(err, schema=context.schema, field=self, value=context.value)"))
V('em-value-falsy', 'E01', (CT, "        if self._value is MISSING:", "        if not self._value:"))
