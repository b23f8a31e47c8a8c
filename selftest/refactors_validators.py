VAL = 'validate.py'
RANGE = "        _assert_value_error(value in self._range, self._msg)\n"
LENGTH = '''        length = len(value)
        min, max = self._min, self._max

        if max is MISSING:
            _assert_value_error(length >= min, self._msg)
        elif min is MISSING:
            _assert_value_error(length <= max, self._msg)
        else:
            _assert_value_error(length >= min and length <= max, self._msg)
'''
EXCL = "        _assert_value_error(value not in self._values, self._msg)\n"
OR = '''        passed = False
        for validator in self._validators:
            try:
                validator(context.schema, value, context)
            except (AssertionError, ValueError, FieldError):
                continue
            else:
                passed = True
                break

        if not passed:
            raise ValueError('All validations failed for the given value')'''
REGEX = '''        if self._match(value) is None:
            raise ValueError(self._fail_message.format(value=value, pattern=self._pattern))
'''
V('v-range-compare', '', (VAL, RANGE, '''        start, stop = self._range.start, self._range.stop
        if self._range.step == 1 and not start <= value < stop:
            raise ValueError(self._msg)
        if value not in self._range:
            raise ValueError(self._msg)
'''))
V('v-range-step', '', (VAL, "        validator._range = obj\n", "        validator._range = range(obj.start, obj.stop, obj.step)\n"))
V('v-range-bounds', '',
  (VAL, "        self._range = range(lb, ub + 1)\n", "        upper = ub + 1\n        self._range = range(lb, upper)\n"),
  (VAL, RANGE, "        if value in self._range:\n            return\n        raise ValueError(self._msg)\n"))
V('v-length-flat', '', (VAL, LENGTH, '''        length = len(value)
        if self._min is not MISSING and length < self._min:
            raise ValueError(self._msg)
        if self._max is not MISSING and not (length <= self._max):
            raise ValueError(self._msg)
'''))
V('v-length-helper', '', (VAL, LENGTH, '''        assert self._fits(len(value)), self._msg

    def _fits(self, n):
        low, high = self._min, self._max
        return (low is MISSING or n >= low) and (high is MISSING or n - high <= 0)
'''))
V('v-length-chained', '', (VAL, LENGTH, '''        n = len(value)
        lowest = 0 if self._min is MISSING else self._min
        highest = n if self._max is MISSING else self._max
        _assert_value_error(lowest <= n <= highest, self._msg)
'''))
V('v-exclude-any', '', (VAL, EXCL, '''        if any(value == excluded for excluded in self._values):
            raise ValueError(self._msg)
'''))
V('v-exclude-loop', '', (VAL, EXCL, '''        for excluded in self._values:
            if excluded == value:
                raise ValueError(self._msg)
'''))
V('v-exclude-list', '', (VAL, "        self._values = values\n", "        self._values = list(values)\n"))
V('v-or-return', '', (VAL, OR, '''        for validator in self._validators:
            try:
                validator(context.schema, value, context)
            except (AssertionError, ValueError, FieldError):
                continue
            return

        raise ValueError('All validations failed for the given value')'''))
V('v-or-any', '', (VAL, OR, '''        if not any(self._accepts(v, value, context) for v in self._validators):
            raise ValueError('All validations failed for the given value')

    @staticmethod
    def _accepts(validator, value, context):
        try:
            validator(context.schema, value, context)
        except (AssertionError, ValueError, FieldError):
            return False
        return True'''))
V('v-or-count', '', (VAL, OR, '''        failed = 0
        for validator in self._validators:
            try:
                validator(context.schema, value, context)
            except (AssertionError, ValueError, FieldError):
                failed += 1
            else:
                break
        if failed == len(self._validators):
            raise ValueError('All validations failed for the given value')'''))
V('v-regex-mode', '',
  (VAL, '''        if full_match:
            self._match = self._pattern.fullmatch
        elif search:
            self._match = self._pattern.search
        else:
            self._match = self._pattern.match
''', '''        self._mode = 'fullmatch' if full_match else 'search' if search else 'match'
'''),
  (VAL, REGEX, '''        found = getattr(self._pattern, self._mode)(value)
        if not found:
            raise ValueError(self._fail_message.format(value=value, pattern=self._pattern))
'''))
V('v-regex-module', '',
  (VAL, "        self._pattern = re.compile(pattern, flags) if isinstance(pattern, str) else pattern\n",
   "        if not isinstance(pattern, re.Pattern):\n            pattern = re.compile(pattern, flags=flags)\n        self._pattern = pattern\n"))
# mutants
V('m-range-exclusive', 'V01', (VAL, "range(lb, ub + 1)", "range(lb, max(ub, lb + 1) + (ub != lb))"))
V('m-range-from-standard', 'V01', (VAL, "        validator._range = obj\n", "        validator._range = range(obj.start, obj.stop)\n"))
V('m-range-missing-ub', 'V01', (VAL, "        if ub is MISSING:\n            ub = lb\n", "        if not ub or ub is MISSING:\n            ub = lb\n"))
V('m-length-zero-max', 'V01', (VAL, "        if max is MISSING:\n            _assert_value_error(length >= min", "        if not max or max is MISSING:\n            _assert_value_error(min is MISSING or length >= min"))
V('m-length-exact-min', 'V01', (VAL, "            min = max = exact\n", "            max = exact\n"))
V('m-exclude-set', 'V02', (VAL, "        self._values = values\n", "        self._values = set(values)\n"))
V('m-exclude-is', 'V02', (VAL, EXCL, "        _assert_value_error(not any(value is x for x in self._values), self._msg)\n"))
V('m-or-narrow', 'V02', (VAL, "            except (AssertionError, ValueError, FieldError):", "            except (AssertionError, ValueError):"))
V('m-or-wide', 'V02', (VAL, "            except (AssertionError, ValueError, FieldError):", "            except Exception:"))
V('m-or-falsy', 'V02', (VAL, "                validator(context.schema, value, context)\n            except", "                if validator(context.schema, value, context) is False:\n                    continue\n            except"))
V('m-or-all', 'V02', (VAL, "                passed = True\n                break\n", "                passed = True\n"))
V('m-regex-search', 'V02', (VAL, "            self._match = self._pattern.search\n", "            self._match = self._pattern.match\n"))
V('m-regex-flags', 'V02', (VAL, "re.compile(pattern, flags) if", "re.compile(pattern) if"))
V('m-regex-empty', 'V02', (VAL, "        if self._match(value) is None:\n", "        if value and self._match(value) is None:\n"))
