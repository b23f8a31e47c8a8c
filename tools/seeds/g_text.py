X = 'oblate/exceptions.py'
NEST = '''
     import oblate
     from oblate import fields
     class C(oblate.Schema):
         n = fields.Integer()
         m = fields.Integer()
     class B(oblate.Schema):
         c = fields.Object(C)
         k = fields.String()
     class A(oblate.Schema):
         b = fields.Object(B)
         t = fields.String()
     try:
         A({'b': {'c': {'n': 'x', 'm': 'y'}, 'k': 5}, 't': 1})
     except oblate.ValidationError as err:
         text = str(err)
     lines = text.split('\\n')
     def at(s):
         got = [l for l in lines if 'field ' + s in l]
         assert len(got) == 1, (s, text)
         return len(got[0]) - len(got[0].lstrip(' '))
     '''
FLAT = '''
     import oblate
     from oblate import fields, validate
     class A(oblate.Schema):
         t = fields.String()
         u = fields.String(load_key='v')
         @validate.field('t')
         def one(self, value, ctx): raise ValueError('first')
         @validate.field('t')
         def two(self, value, ctx): raise ValueError('second')
         @validate.field('u')
         def three(self, value, ctx): raise ValueError('third')
     def text(data):
         try: A(data)
         except oblate.ValidationError as err: return str(err)
     '''
SEED('e03-count-errors', 'E03', 'a field with several failures', 'the heading counts messages instead of fields',
     FLAT + "assert '2 validation errors' in text({'t': 'a', 'v': 'b'}), text({'t': 'a', 'v': 'b'})\n",
     (X, "│ {len(field_errors)} validation", "│ {len(self.errors)} validation"))
SEED('e03-flat-indent', 'E03', 'errors nested two levels deep', 'nesting deeper than one level is not indented further',
     NEST + "assert at('b:') < at('c:') < at('n:'), text\n",
     (X, 'indent = level*4', 'indent = min(level, 1)*4'))
SEED('e03-shared-builder', 'E03', 'a nested error beside further messages', 'the lines of a nested error are dropped when it is not the last',
     '''
     import oblate
     from oblate import fields, validate
     class A(oblate.Schema):
         t = fields.String()
         @validate.field('t')
         def one(self, value, ctx): raise oblate.FieldError([{'k': 'inner'}, 'after'])
     try: A({'t': 'x'})
     except oblate.ValidationError as err: text = str(err)
     assert 'inner' in text and 'after' in text, text
     ''',
     (X, "                    continue\n\n                prefix", "                    break\n\n                prefix"))
SEED('e03-dict-loses-key', 'E03', 'two fields with the same nested keys', 'nested keys shown once per text are not repeated',
     '''
     import oblate
     from oblate import fields
     class C(oblate.Schema):
         n = fields.Integer()
     class A(oblate.Schema):
         a = fields.Object(C)
         b = fields.Object(C)
     try: A({'a': {'n': 'x'}, 'b': {'n': 'y'}})
     except oblate.ValidationError as err: text = str(err)
     assert text.count('field n') == 2, text
     ''',
     (X, "            builder.append(message)\n", "            if level == 0 or name not in self._shown:\n                builder.append(message)\n            self._shown.add(name)\n"),
     (X, "        self.errors = errors.copy()\n", "        self.errors = errors.copy()\n        self._shown = set()\n"))
SEED('e03-schema-of-first', 'E03', 'an error raised for an outer schema whose first failure is in a nested one', 'the heading names the schema of the first failure',
     '''
     import oblate
     from oblate.utils import current_schema, current_field_key
     class A(oblate.Schema): pass
     class B(oblate.Schema): pass
     a, b = A({}), B({})
     current_field_key.set('k')
     current_schema.set(a)
     e = oblate.FieldError('x')
     current_schema.set(b)
     assert "'B'" in str(oblate.ValidationError([e])), str(oblate.ValidationError([e]))
     ''',
     (X, "schema_name = self.schema.__class__.__qualname__", "schema_name = (self.errors[0] if self.errors else self).schema.__class__.__qualname__"))
SEED('e03-alias-row', 'E03', 'a field whose key differs from its name has two failures', 'a message is shown twice when key and name differ',
     FLAT + "x = text({'t': 'a', 'v': 5}); x = text({'t': 'a', 'v': 'b'}); assert x.count('third') == 1, x\n",
     (X, "message = f'{\" \"*indent}└── In field {name} ({field._name}):'", "message = f'{\" \"*indent}└── In field {name} ({field._name}): {errors[0].message}'"))
