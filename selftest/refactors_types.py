TV = 'type_validation.py'
LISTH = '''        args = get_args(tp) or (Any,)
        errors: List[str] = []
        validated = True
        vtp = args[0]

        for idx, v in enumerate(value):  # type: ignore
            item_validated, fail_msg = cls._process_value(v, vtp)
            if not item_validated:
                validated = False
                errors.append(f'Sequence item at index {idx}: {fail_msg[0]}')

        return validated, errors
'''
TUP = '''        if len(args) == 2 and args[1] is Ellipsis:
            # Tuple[T, ...] -> tuple of any length of type T
            vtp = args[0]
            for idx, v in enumerate(value):  # type: ignore
                item_validated, fail_msg = cls._process_value(v, vtp)
                if not item_validated:
                    validated = False
                    errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')
        else:
            for idx, tp in enumerate(args):
                try:
                    v = value[idx]  # type: ignore
                except IndexError:
                    validated = False
                    errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
                    break
                else:
                    item_validated, fail_msg = cls._process_value(v, tp)
                    if not item_validated:
                        validated = False
                        errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')  # pragma: no cover

            if len(value) > len(args):  # type: ignore
                validated = False
                errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
'''
MAP = '''        for idx, (k, v) in enumerate(value.items()):  # type: ignore
            item_validated, fail_msg = cls._process_value(k, ktp)
            if not item_validated:
                validated = False
                errors.append(f'{name} key at index {idx}: {fail_msg[0]}')
            else:
                item_validated, fail_msg = cls._process_value(v, vtp)
                if not item_validated:
                    validated = False
                    errors.append(f'{name} value for key {k!r}: {fail_msg[0]}')
'''
SETH = '''        for v in value:  # type: ignore
            item_validated, fail_msg = cls._process_value(v, vtp)
            if not item_validated:
                validated = False
                errors.append(f'Set includes an invalid item: {fail_msg[0]}')
'''
UNION = '''        for tp in args:
            validated, _ = cls._process_value(value, tp)
            if validated:
                return True, []
'''
STRUCT = '''        if origin is collections.abc.Sequence:
            return cls._handle_origin_sequence(value, tp)
        if origin is collections.abc.Mapping:
            return cls._handle_origin_mapping(value, tp)
        if origin is dict:
            return cls._handle_origin_dict(value, tp)
        if origin is list:
            return cls._handle_origin_list(value, tp)
        if origin is set:
            return cls._handle_origin_set(value, tp)
        if origin is tuple:
            return cls._handle_origin_tuple(value, tp)
'''
TD = '''        for key, value in value.items():  # type: ignore
            try:
                attr_tp = typehints.pop(key)  # type: ignore
            except KeyError:
                errors.append(f'Invalid key {key!r}')
            else:
                validated, msg = cls._process_value(value, attr_tp)
                if not validated:
                    errors.append(f'Validation failed for {key!r}: {msg[0]}')

        for key, value in typehints.items():
            origin = get_origin(value)
            if origin is NotRequired or (origin is not Required and key not in tp.__required_keys__):
                # either NotRequired marker and total=True/False -> field is not required
                # or no marker and declared by class with total=False -> field is not required
                continue

            errors.append(f'Key {key!r} is required')
'''
VT = '''    for key, value in values.items():
        if key not in validator.types and ignore_extra:
            continue
        validated, errors = validator.validate(key, value)
        if not validated:
            key_errors[key] = errors
        validator.types.pop(key, None)

    if not ignore_missing:
        for key in validator.types:
            key_errors[key] = ['This key is missing.']
'''
WARN = '''        if key in cls._warnings_issued or not oblate.config.warn_unsupported_types:
            return  # pragma: no cover

        cls._warnings_issued.add(key)
'''
V('ty-list-errors', '', (TV, LISTH, '''        vtp = (get_args(tp) or (Any,))[0]
        errors = []
        for idx, item in enumerate(value):
            good, why = cls._process_value(item, vtp)
            if good:
                continue
            errors.append(f'Sequence item at index {idx}: {why[0]}')

        return not errors, errors
'''))
V('ty-list-generator', '', (TV, LISTH, '''        vtp = (get_args(tp) or (Any,))[0]
        results = [cls._process_value(item, vtp) for item in value]
        errors = [f'Sequence item at index {idx}: {why[0]}' for idx, (good, why) in enumerate(results) if not good]
        return not errors, errors
'''))
V('ty-tuple-zip', '', (TV, TUP, '''        variadic = len(args) == 2 and args[1] is Ellipsis
        if not variadic and len(value) != len(args):
            return False, [f'Tuple length must be {len(args)} (current length: {len(value)})']
        expected = [args[0]] * len(value) if variadic else args
        for idx, (v, tp) in enumerate(zip(value, expected)):
            item_validated, fail_msg = cls._process_value(v, tp)
            if not item_validated:
                validated = False
                errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')
'''))
V('ty-map-comprehension', '', (TV, MAP, '''        idx = 0
        for k, v in value.items():
            key_ok, fail_msg = cls._process_value(k, ktp)
            if key_ok:
                value_ok, fail_msg = cls._process_value(v, vtp)
                if not value_ok:
                    errors.append(f'{name} value for key {k!r}: {fail_msg[0]}')
            else:
                errors.append(f'{name} key at index {idx}: {fail_msg[0]}')
            idx += 1
        validated = len(errors) == 0
'''))
V('ty-set-loop', '', (TV, SETH, '''        for item in value:
            ok, fail_msg = cls._process_value(item, vtp)
            validated = validated and ok
            if not ok:
                errors += [f'Set includes an invalid item: {fail_msg[0]}']
'''))
V('ty-union-any', '', (TV, UNION, '''        if any(cls._process_value(value, tp)[0] for tp in args):
            return True, []
'''))
V('ty-struct-table', '', (TV, STRUCT, '''        handler = {
            collections.abc.Sequence: cls._handle_origin_sequence,
            collections.abc.Mapping: cls._handle_origin_mapping,
            dict: cls._handle_origin_dict,
            list: cls._handle_origin_list,
            set: cls._handle_origin_set,
            tuple: cls._handle_origin_tuple,
        }.get(origin)
        if handler is not None:
            return handler(value, tp)
'''))
V('ty-typeddict', '', (TV, TD, '''        for key in value:
            if key not in typehints:
                errors.append(f'Invalid key {key!r}')
                continue
            validated, msg = cls._process_value(value[key], typehints[key])
            if not validated:
                errors.append(f'Validation failed for {key!r}: {msg[0]}')

        for key, hint in typehints.items():
            if key in value:
                continue
            origin = get_origin(hint)
            required = origin is Required or (origin is not NotRequired and key in tp.__required_keys__)
            if required:
                errors.append(f'Key {key!r} is required')
'''))
V('ty-validate-types', '', (TV, VT, '''    for key, value in values.items():
        if key in types:
            ok, errors = validator.validate(key, value)
            if not ok:
                key_errors[key] = errors
        elif not ignore_extra:
            key_errors[key] = ['Invalid key']

    if not ignore_missing:
        key_errors.update({key: ['This key is missing.'] for key in types if key not in values})
'''))
V('ty-warn-order', '', (TV, WARN, '''        if not oblate.config.warn_unsupported_types:
            return
        if key in cls._warnings_issued:
            return
        cls._warnings_issued.add(key)
'''))
V('ty-process-try', '', (TV, '''            try:
                validated = isinstance(value, tp)
            except TypeError:
                cls._warn_unsupported(tp)
                return True, []
            return validated, [f'Must be of type {getattr(tp, "__name__", tp)}']
''', '''            return cls._check_instance(value, tp)
'''), (TV, '''    def validate(self, key: str, value: Any) -> Tuple[bool, List[str]]:
''', '''    @classmethod
    def _check_instance(cls, value, tp):
        try:
            if isinstance(value, tp):
                return True, []
        except TypeError:
            cls._warn_unsupported(tp)
            return True, []
        label = getattr(tp, '__name__', tp)
        return False, [f'Must be of type {label}']

    def validate(self, key: str, value: Any) -> Tuple[bool, List[str]]:
'''))
V('ty-literal', '', (TV, '''        if value not in args:
            if len(args) == 1:
                return False, [f'Value must be equal to {args[0]!r}']
            return False, [f'Value must be one of: {", ".join(repr(v) for v in args)}']
        return True, []
''', '''        for allowed in args:
            if value == allowed:
                return True, []
        wanted = ', '.join(map(repr, args))
        return False, [f'Value must be equal to {wanted}' if len(args) == 1 else f'Value must be one of: {wanted}']
'''))
# mutants
V('tm-list-last', 'T04', (TV, LISTH, LISTH.replace("            if not item_validated:\n                validated = False\n", "            validated = item_validated\n            if not item_validated:\n")))
V('tm-list-bool', 'T04', (TV, "            if not item_validated:\n                validated = False\n                errors.append(f'Sequence item", "            if not item_validated and idx:\n                validated = False\n                errors.append(f'Sequence item"))
V('tm-tuple-short', 'T04', (TV, "            if len(value) > len(args):  # type: ignore\n", "            if args and len(value) > len(args):  # type: ignore\n"))
V('tm-seq-tuple', 'T04', (TV, "            return cls._handle_origin_list(list(value), tp)  # type: ignore\n", "            return cls._handle_origin_tuple(value, tp)  # type: ignore\n"))
V('tm-map-value', 'T04', (TV, "            else:\n                item_validated, fail_msg = cls._process_value(v, vtp)", "            elif v is not None:\n                item_validated, fail_msg = cls._process_value(v, vtp)"))
V('tm-union-first', 'T04', (TV, "        args = get_args(tp)\n        for tp in args:\n            validated, _", "        args = get_args(tp)[:2]\n        for tp in args:\n            validated, _"))
V('tm-union-message', 'T04', (TV, "            return validated, [f'Must be of type {getattr(tp, \"__name__\", tp)}']\n", "            return validated, [] if value is None else [f'Must be of type {getattr(tp, \"__name__\", tp)}']\n"))
V('tm-literal-is', 'T04', (TV, "        if value not in args:\n            if", "        if not any(value is a for a in args) and value not in args[1:]:\n            if"))
V('tm-literal-hash', 'T04', (TV, "        if value not in args:\n            if", "        if value not in set(args):\n            if"))
V('tm-wrap-skip', 'T06', (TV, "        return cls._process_value(value, get_args(tp)[0])\n", "        return (True, []) if value is None else cls._process_value(value, get_args(tp)[0])\n"))
V('tm-td-total', 'T06', (TV, "key not in tp.__required_keys__)", "not tp.__total__)"))
V('tm-td-extra', 'T06', (TV, "                errors.append(f'Invalid key {key!r}')\n", "                if typehints:\n                    errors.append(f'Invalid key {key!r}')\n"))
V('tm-unsup-name', 'T05', (TV, "cls._warning_unsupported_type.format(type=getattr(tp, '__name__', tp))", "cls._warning_unsupported_type.format(type=tp.__name__)"))
V('tm-unsup-hash', 'T05', (TV, '''        try:
            hash(tp)
        except TypeError:
            key = repr(tp)

''', ''))
V('tm-unsup-once', 'T05', (TV, "        if key in cls._warnings_issued or not oblate.config.warn_unsupported_types:\n            return  # pragma: no cover\n\n        cls._warnings_issued.add(key)\n", "        if cls._warnings_issued and key in cls._warnings_issued or not oblate.config.warn_unsupported_types:\n            return  # pragma: no cover\n\n        if isinstance(tp, type):\n            cls._warnings_issued.add(key)\n            return\n"))
V('tm-unsup-off', 'T05', (TV, "        if key in cls._warnings_issued or not oblate.config.warn_unsupported_types:", "        if key in cls._warnings_issued or not (oblate.config.warn_unsupported_types or isinstance(tp, str)):"))
V('tm-vt-mutates', 'T07', (TV, "    validator = TypeValidator(dict(types))\n", "    validator = TypeValidator(types)\n"))
V('tm-vt-missing', 'T07', (TV, "        for key in validator.types:\n            key_errors[key]", "        for key in validator.types if not ignore_extra else ():\n            key_errors[key]"))
V('tm-vt-extra', 'T07', (TV, "        if key not in validator.types and ignore_extra:\n", "        if ignore_extra and (key not in validator.types or value is None):\n"))
