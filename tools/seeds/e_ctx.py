U = 'oblate/utils.py'
B = 'oblate/fields/base.py'
X = 'oblate/exceptions.py'
C = 'oblate/contexts.py'
V = 'oblate/validate.py'
S = 'oblate/schema.py'
PR = 'oblate/fields/primitive.py'
N = 'oblate/fields/nesting.py'
CF = 'oblate/configs.py'
ST = 'oblate/fields/structs.py'

HEAD = '''
     import asyncio, threading, typing as t
     import oblate
     from oblate import fields, validate
     '''
VARS = ("current_context: ContextVar[_BaseValueContext] = ContextVar('current_context')\n"
        "current_field_key: ContextVar[str] = ContextVar('current_field_key')\n"
        "current_schema: ContextVar[Schema] = ContextVar('current_schema')\n")
THREADS = HEAD + '''
     class A(oblate.Schema):
         a = fields.Any()
         b = fields.Any()
         @validate.field('a')
         def check(self, value, ctx):
             value[0].wait(5)
             value[1].wait(5)
             raise ValueError('no')
     class B(oblate.Schema):
         x = fields.Any()
         @validate.field('x')
         def check(self, value, ctx):
             value[0].set()
             value[1].wait(5)
     go, done, inside = threading.Event(), threading.Event(), threading.Event()
     got = []
     def one():
         try:
             A({'a': (inside, go), 'b': 1})
         except oblate.ValidationError as err:
             got.append(err.raw())
         done.set()
     def two():
         B({'x': (inside, done)})
     class W:
         def wait(self, n): go.set(); return done.wait(n)
     ts = [threading.Thread(target=f) for f in (one, two)]
     def two2():
         class D:
             def set(self): inside.set()
         B({'x': (D(), W())})
     ts[1] = threading.Thread(target=two2)
     for x in ts: x.start()
     for x in ts: x.join()
     assert got == [{'a': ['no']}], got
     '''

SEED('p01-plain-key', 'P01', 'two threads inside operations at the same time',
     'the current key is kept in one plain object for the whole process', THREADS, (U,
     "current_field_key: ContextVar[str] = ContextVar('current_field_key')\n",
     '''class _Current:
    def __init__(self) -> None:
        self.value: Any = MISSING

    def get(self, *default: Any) -> Any:
        if self.value is MISSING:
            if default:
                return default[0]
            raise LookupError('current_field_key')
        return self.value

    def set(self, value: Any) -> Any:
        old, self.value = self.value, value
        return old

    def reset(self, token: Any) -> None:
        self.value = token


current_field_key: Any = _Current()
'''))
SEED('p01-scratch-errors', 'P01', 'a validator that runs another schema with failing validators',
     'the list of validator errors is one object reused by every field', HEAD + '''
     def bad(s, v, c): raise ValueError('inner')
     class In(oblate.Schema):
         y = fields.Any(validators=[lambda s, v, c: None])
     def first(s, v, c): raise ValueError('first')
     def second(s, v, c): In({'y': 1})
     class A(oblate.Schema):
         x = fields.Any(validators=[first, second])
     try:
         A({'x': 1})
     except oblate.ValidationError as err:
         assert err.raw() == {'x': ['first']}, err.raw()
     else:
         raise SystemExit('accepted')
     ''', (B, "        errors: List[FieldError] = []\n\n        for validator in validators:",
           "        errors = _failures\n        errors.clear()\n\n        for validator in validators:"),
          (B, "                errors.append(err)\n\n        return errors", "                errors.append(err)\n\n        return errors.copy()"),
          (B, "ValidatorT = Union[", "_failures: List[FieldError] = []\nValidatorT = Union["))
SEED('p01-pending-default', 'P01', 'a nested schema in data whose outer fields have validators',
     'the list of validators still to run is a default argument shared by all constructions', HEAD + '''
     class In(oblate.Schema):
         y = fields.Any()
     def no(s, v, c): raise ValueError('no')
     class A(oblate.Schema):
         x = fields.Any(validators=[no])
         n = fields.Object(In)
     try:
         A({'x': 1, 'n': {'y': 1}})
     except oblate.ValidationError as err:
         assert err.raw() == {'x': ['no']}, err.raw()
     else:
         raise SystemExit('accepted')
     ''', (S, "    def _prepare_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool = MISSING) -> None:\n",
              "    def _prepare_from_data(\n            self,\n            data: Mapping[str, Any],\n            *,\n            ignore_extra: bool = MISSING,\n            validators: List[Tuple[Field[Any, Any], Any, LoadContext, bool]] = [],\n        ) -> None:\n\n        validators.clear()\n"),
             (S, "        validators: List[Tuple[Field[Any, Any], Any, LoadContext, bool]] = []\n        errors", "        errors"))
SEED('c01-default-context', 'C01', 'a callable default that reads the state given to the constructor',
     'a callable default is given a context without the state of the caller', HEAD + '''
     class A(oblate.Schema):
         a = fields.Any(default=lambda ctx, field: ctx.state)
         b = fields.Any(required=False)
     assert A({'b': 1}, state={'k': 1}).a == {'k': 1}
     ''', (S, "                    self._field_values[field._name] = field._default(self._context, field) \\", "                    self._field_values[field._name] = field._default(SchemaContext(self), field) \\"))
SEED('c01-empty-state', 'C01', 'an empty dictionary as the state',
     'a falsy state given to the constructor is dropped', HEAD + '''
     box = {}
     class A(oblate.Schema):
         a = fields.Any()
     s = A({'a': 1}, state=box)
     assert s.context.state is box
     ''', (C, "        self.state = state\n        self._initialized", "        self.state = state or None\n        self._initialized"))
SEED('c01-state-copied', 'C01', 'a caller that goes on using the state object it passed',
     'the schema context keeps a copy of the state', HEAD + '''
     box = {'n': 0}
     class A(oblate.Schema):
         a = fields.Any()
         @validate.field('a')
         def count(self, value, ctx):
             self.context.state['n'] += 1
     A({'a': 1}, state=box)
     assert box == {'n': 1}
     ''', (C, "        self.state = state\n        self._initialized", "        self.state = copy.copy(state)\n        self._initialized"))
SEED('c01-state-of-schema', 'C01', 'a schema state that is a dictionary, and value contexts that use theirs',
     'value contexts start from the state of the schema', HEAD + '''
     class F(fields.Any):
         def value_load(self, value, context):
             assert context.state == {}, context.state
             return value
     class A(oblate.Schema):
         a = F()
     A({'a': 1}, state={'k': 1})
     ''', (C, "        self.state: Dict[str, Any] = {}\n", "        outer = schema._context.state\n        self.state: Dict[str, Any] = outer if isinstance(outer, dict) else {}\n"))
SEED('c01-state-per-operation', 'C01', 'two fields whose code uses the state of their contexts',
     'all value contexts of one construction share one state', HEAD + '''
     class F(fields.Any):
         def value_load(self, value, context):
             assert context.state == {}, context.state
             context.state['x'] = value
             return value
     class A(oblate.Schema):
         a = F()
         b = F()
     A({'a': 1, 'b': 2})
     ''', (S, "        context = LoadContext(field=field, value=value, schema=self)\n        token", "        context = LoadContext(field=field, value=value, schema=self)\n        if validators:\n            context.state = validators[0][2].state\n        token"))
SEED('c01-dump-state-shared', 'C01', 'two serializers that use the state of their contexts',
     'the contexts of one serialisation share one state', HEAD + '''
     class F(fields.Any):
         def value_dump(self, value, context):
             assert context.state == {}, context.state
             context.state['x'] = value
             return value
     class A(oblate.Schema):
         a = F()
         b = F()
     A({'a': 1, 'b': 2}).dump()
     ''', (S, "        errors: List[FieldError] = []\n        schema_token = current_schema.set(self)\n\n        try:\n            for name in fields:", "        errors: List[FieldError] = []\n        state: Dict[str, Any] = {}\n        schema_token = current_schema.set(self)\n\n        try:\n            for name in fields:"),
          (S, "                    included_fields=fields,\n                )", "                    included_fields=fields,\n                )\n                context.state = state"))
SEED('c01-parent-config', 'C01', 'a schema that declares a configuration of its own, read through the context',
     'the context of a schema names the configuration of its base', HEAD + '''
     class A(oblate.Schema):
         a = fields.Any()
         class Config(oblate.SchemaConfig):
             ignore_extra = True
     assert A({'a': 1}).context.config is A.Config
     ''', (C, "        self.config = schema.__config__\n", "        self.config = type(schema).__mro__[1].__config__  # type: ignore\n"))
SEED('c01-late-state', 'C01', 'user code that runs during construction and reads the state',
     'the state is attached to the context only when construction is complete', HEAD + '''
     seen = []
     class A(oblate.Schema):
         a = fields.Any(default=lambda ctx, field: seen.append(ctx.state))
     A({}, state=5)
     assert seen == [5], seen
     ''', (S, "            self._context = SchemaContext(self, state=state)\n            self._prepare_from_data(data, ignore_extra=ignore_extra)\n", "            self._context = SchemaContext(self)\n            self._prepare_from_data(data, ignore_extra=ignore_extra)\n            self._context.state = state\n"))

SEED('c01-included-requested', 'C01', 'a selection naming something that is no field',
     'included_fields holds the requested names, also those that are no fields', HEAD + '''
     seen = []
     class F(fields.Any):
         def value_dump(self, value, context):
             seen.append(set(context.included_fields)); return value
     class A(oblate.Schema):
         a = F()
         b = F()
     A({'a': 1, 'b': 2}).dump(include=['a', 'nothing'])
     assert seen == [{'a'}], seen
     ''', (S, "            fields = fields.intersection(set(include))", "            fields = set(include)"),
     (S, "                field = self.__fields__[name]\n                try:\n                    value = self._field_values[name]", "                if name not in self.__fields__:\n                    continue\n                field = self.__fields__[name]\n                try:\n                    value = self._field_values[name]"))
SEED('c01-included-keys', 'C01', 'a field whose load key is not its name',
     'included_fields holds load keys', HEAD + '''
     seen = []
     class F(fields.Any):
         def value_dump(self, value, context):
             seen.append(set(context.included_fields)); return value
     class A(oblate.Schema):
         a = F(load_key='A')
     A({'A': 1}).dump()
     assert seen == [{'a'}], seen
     ''', (C, "        self.included_fields = included_fields\n        super().__init__(**kwargs)", "        super().__init__(**kwargs)\n        self.included_fields = {self.schema._get_field(name).load_key for name in included_fields}"))
SEED('c01-included-excluded', 'C01', 'a dump with exclude',
     'included_fields lists excluded fields too', HEAD + '''
     seen = []
     class F(fields.Any):
         def value_dump(self, value, context):
             seen.append(set(context.included_fields)); return value
     class A(oblate.Schema):
         a = F()
         b = F()
     A({'a': 1, 'b': 2}).dump(exclude=['b'])
     assert seen == [{'a'}], seen
     ''', (S, "        if exclude is not MISSING:\n            fields = fields.difference(set(exclude))\n", "        skipped = set() if exclude is MISSING else set(exclude)\n"),
     (S, "                field = self.__fields__[name]\n                try:\n                    value = self._field_values[name]", "                if name in skipped:\n                    continue\n                field = self.__fields__[name]\n                try:\n                    value = self._field_values[name]"))
