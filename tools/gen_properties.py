"""Writes /verif/properties.jsonl from the table below (run by hand when a property is edited)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), ):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
SC, FB, EX, CT, CF, TV, VA = ('oblate/schema.py', 'oblate/fields/base.py', 'oblate/exceptions.py', 'oblate/contexts.py',
    'oblate/configs.py', 'oblate/type_validation.py', 'oblate/validate.py')
PR, ST, TY, NE, UT = ('oblate/fields/primitive.py', 'oblate/fields/structs.py', 'oblate/fields/typings.py', 'oblate/fields/nesting.py', 'oblate/utils.py')
FV = ('_field_values', 'the current value of every set field of one schema object', SC)
VAR = ('current_schema / current_field_key / current_context', 'ambient record of what is being processed', UT)

p('S01', 'Construction accepts only fully validated data',
  'A schema object is constructed only if every value supplied for one of its fields is either an allowed None or was accepted by that field\'s deserializer, and every validator registered on that field (raw validators on the raw value, the others on the deserialized value) accepted it. The value stored for the field is exactly what the deserializer returned for the value that the preprocessing hook left in the data. If anything rejects a value, construction raises a validation error instead of completing.',
  ['inputs', 'programs', 'configurations'], 'every input mapping, every set of fields and every set of registered validators',
  'Tests construct a few schemas with one or two fields; a check skipped for some combination of fields, validators or key order is not sampled.',
  [SC, FB], [('load loop and lazy validator loop', SC + ' Schema._prepare_from_data'), ('per-value processing', SC + ' Schema._process_field_value'), ('validator runner', FB + ' Field._run_validators')], [FV], ['Schema(...)'])
p('S02', 'One error report contains every failure of the operation',
  'When construction, update or serialisation fails validation, every offending entry has been examined and the raised error contains every failure found: a failing field or validator never stops the remaining fields and validators from being checked, and no recorded failure is dropped.',
  ['inputs', 'programs'], 'every combination of failing and passing fields, validators and keys in one operation',
  'Existing tests mostly assert that some error is raised and look at one message; a lost or short-circuited second error passes them.',
  [SC, FB, EX], [('error lists', SC + ' _prepare_from_data, _process_field_value, update, dump'), ('validator runner', FB + ' Field._run_validators')], [], ['ValidationError.errors'])
p('S03', 'A failed update changes nothing',
  'If a multi-field update ends with any exception at all - a validation error, a frozen error, or an unrelated exception from user code or from the given mapping - then every field value of the schema is what it was before the call.',
  ['inputs', 'fault_sequences', 'programs'], 'every update, every position in it at which anything raises, every kind of exception',
  'The single test fails on a plain validation error; other exception kinds and other failure positions are never exercised.',
  [SC], [('snapshot and restore', SC + ' Schema.update')], [FV], ['Schema.update'])
p('S04', 'Assignment and update enforce every check and store only accepted values',
  'A value set on an existing schema by attribute assignment or by update goes through the same checks as at construction: the None rule, raw validators on the raw value, the deserializer, and the other validators on its result. If any of them rejects it the operation raises a validation error and a rejected assignment leaves the old value in place; if all accept, the deserialized value becomes the value of that field and of no other.',
  ['inputs', 'histories', 'programs'], 'every value, field and validator set, on any schema object',
  'Tests assign two or three values; combinations of raw validators, None and failing validators on assignment are not covered.',
  [SC, FB], [('descriptor setter', FB + ' Field.__set__'), ('immediate validation', SC + ' Schema._process_field_value'), ('update loop', SC + ' Schema.update')], [FV], ['schema.field = value', 'Schema.update'])
p('S05', 'Frozen schemas and frozen fields never change after construction',
  'On a schema configured as frozen, and for a field declared frozen on any schema, assignment and update always raise the frozen error, whatever the value, the key used for the field, whether the field currently has a value, and also when other entries of the update are invalid. No stored value is modified by such an attempt.',
  ['inputs', 'histories', 'configurations'], 'every assignment or update on a frozen schema or touching a frozen field',
  'Tests try one integer field under its own name; load keys, unset optional frozen fields or repeated values are not tried.',
  [SC, FB, EX], [('guards', SC + ' Schema.update; ' + FB + ' Field.__set__')], [FV], ['FrozenError'])
p('S06', 'Absent fields: required is an error, defaults fill in, optional stays unset',
  'At construction a field whose key is absent from the data is reported as missing if it is required, takes its default if it has one (a callable default is called with the schema context and the field, and its result is used), and otherwise stays without a value. A default never replaces a supplied value, and a field that has a default is never reported as missing.',
  ['inputs', 'programs'], 'every subset of absent keys and every field declaration',
  'Tests omit a single field of each kind; they cannot cover every subset of absent keys or falsy supplied values.',
  [SC, FB], [('absent-field loop', SC + ' Schema._prepare_from_data'), ('required flag', FB + ' Field.__init__')], [FV], ['Schema(...)'])
p('S07', 'None is accepted exactly by fields that allow it',
  'A None supplied for a field at construction, assignment or update is stored as None if the field allows None and is otherwise rejected with the none-disallowed error. None never reaches the deserializer or the non-raw validators, and raw validators see it like any other raw value.',
  ['inputs', 'programs'], 'every field, every way of supplying None',
  'Tests only construct with one nullable and one plain string field.',
  [SC], [('None branch', SC + ' Schema._process_field_value')], [FV], ['Schema(...)', 'schema.field = None'])
p('S08', 'Unknown keys are rejected unless extras are explicitly ignored',
  'A key of the given data that is not the load key of any field is reported as an error under that key when extras are not ignored, and has no effect at all when they are. Whether they are ignored is decided by the argument of the call whenever it is given (True or False), and by the schema configuration otherwise, identically at construction and update.',
  ['inputs', 'configurations'], 'every key set, every combination of call argument and configuration',
  'Tests cover the configuration at construction only; the override in both directions and update are not covered.',
  [SC], [('unknown-key branch and override', SC + ' Schema._prepare_from_data, Schema.update')], [], ['Schema(...)', 'Schema.update'])
p('S09', 'Validators run at the right stage, on the right value, with a shared context',
  'Raw validators receive the raw value and the other validators receive the deserializer\'s result; the latter never run for a value whose deserialization failed. At construction validators run only after all supplied fields have been loaded and all defaults set, so they can read other fields. The deserializer and all validators of one value receive one and the same load context, which carries that field, raw value and schema.',
  ['programs', 'inputs'], 'every field and validator set, in every field order',
  'Tests check one raw and one normal validator on one field; ordering relative to other fields and context identity are not observed.',
  [SC, FB, CT], [('lazy validator queue', SC + ' Schema._prepare_from_data, _process_field_value'), ('context', CT + ' LoadContext')], [], ['validators', 'Field.value_load'])
p('S10', 'Every operation leaves the ambient error context as it found it',
  'Whenever construction, assignment, update, or serialisation (nested ones included) returns or raises - including when user code raises an unexpected exception - the ambient record of current schema, current field key and current value context that field errors are stamped from is exactly what it was before the call.',
  ['histories', 'fault_sequences', 'programs'], 'every operation, every exit path, any exception raised by user code',
  'A leak is invisible to the operation that causes it; it only mis-stamps errors of a later one, and no test looks at that state.',
  [SC, FB, UT], [('set/reset pairs', SC + ' all processing methods; ' + FB + ' Field.__set__')], [VAR], ['FieldError.schema', 'FieldError.context', 'FieldError.key'])
p('S11', 'Field errors name the right schema, key and value context',
  'While user code (deserializers, serializers, validators, error formatters, callable defaults) runs for a field, and whenever the library itself creates an error for it, the ambient schema is the schema object being processed, the ambient key is the raw-data key of that field (or the unknown key), and during loading, validating and dumping the ambient value context is the one passed to the user code. Hence every field error and validation error reports the true schema, key, field and context, whichever operation it came from.',
  ['inputs', 'programs', 'histories'], 'every error of every operation, nested or not, with or without custom load keys',
  'Tests look at keys of construction errors with default keys only; assignment, update, dump and custom load keys are not checked.',
  [SC, FB, EX], [('context variables', SC + ' / ' + FB), ('stamping', EX + ' FieldError.__init__, ValidationError.__init__')], [VAR], ['FieldError.schema/key/field/context', 'ValidationError.schema'])
p('S12', 'User ValueError, AssertionError and FieldError always become field errors',
  'A ValueError, AssertionError or FieldError raised by a deserializer, serializer, validator or callable default during an operation is reported as a field error inside the operation\'s validation error, keeping its message (a validation-failed message when it has none). Any other exception from such code leaves the operation unchanged and is never swallowed or converted.',
  ['programs', 'fault_sequences'], 'every exception class raised at every user-code call',
  'Tests raise from two value_load methods and a few validators; the remaining call sites and exception classes are not covered.',
  [SC, FB, EX], [('except clauses', SC + ' _prepare_from_data, _process_field_value, dump; ' + FB + ' _run_validators'), ('conversion', EX + ' FieldError._from_standard_error')], [], ['ValidationError.errors'])
p('S13', 'Every validation failure raises the globally configured error class',
  'Construction, assignment, update and serialisation report validation failures only by raising the validation error class configured on the library\'s global configuration at that moment, including after the configuration object is replaced as documented. Setting the option to something that is not a validation error class is refused and leaves the configuration unchanged.',
  ['configurations', 'histories'], 'every configuration history and every failing operation',
  'One test reads the option back; that each failing operation honours the current configuration is not tested.',
  [SC, FB, CF], [('raise sites', SC + ' / ' + FB), ('option descriptor', CF + ' _ConfigOption, GlobalConfig')], [], ['oblate.config.validation_error_cls'])
p('S14', 'Initialisation status and post-init hook track success exactly',
  'A schema reports itself as initialised only after all its data has been loaded and validated without error, so load contexts report is_update() False during construction and True afterwards. The post-initialisation hook runs exactly once per successful construction, after the status has changed, and never when construction fails.',
  ['inputs', 'programs', 'fault_sequences'], 'every construction, successful or failing',
  'Tests check one schema; hook count, failing constructions and status during validators are not observed.',
  [SC, CT], [('flag and hook', SC + ' Schema._prepare_from_data; ' + CT + ' SchemaContext, LoadContext.is_update')], [('_initialized', 'construction has succeeded', CT)], ['SchemaContext.is_initialized', '__schema_post_init__'])
p('S15', 'Serialisation emits exactly the selected set fields under their dump keys',
  'Dumping yields one entry for each field that currently has a value and is selected (all, those in include, or those not in exclude), under that field\'s dump key, with the result of that field\'s serializer applied to its current value; unset and unselected fields never appear and nothing is silently omitted. Giving both include and exclude is a TypeError whatever they contain, and dumping never changes the schema.',
  ['inputs', 'histories', 'programs'], 'every schema state and every include/exclude',
  'Tests dump four string fields; unset fields, dump keys combined with selection, and empty selections are not covered.',
  [SC], [('selection and loop', SC + ' Schema.dump')], [FV], ['Schema.dump'])
p('S16', 'Reading a field returns its current value or a definite error',
  'Reading a field by attribute, or by field name or load key through the lookup method, returns the value currently stored for that field, including None and falsy values; a caller\'s default is returned only when the field has no value. A field without value raises the field-not-set error (an AttributeError) and a name that is no field raises RuntimeError.',
  ['inputs', 'histories'], 'every schema state, name and default',
  'Tests read a few strings; falsy stored values and load-key lookup are not covered.',
  [SC, FB, EX], [('lookup', SC + ' Schema.get_value_for, _get_field; ' + FB + ' Field.__get__')], [FV], ['Schema.get_value_for'])
p('S17', 'Subclasses inherit all fields and never alter their parents',
  'A schema subclass has every field of all its base schemas plus its own, an overriding field replaces the inherited one completely (also under its load key), and validators declared in a class body - including those that name an inherited field - apply to that class, also when the attribute of a field is assigned; a validator for a name no field has is refused with TypeError. Defining a subclass never changes the fields, load keys or validators of a parent schema.',
  ['programs'], 'every class hierarchy of schemas',
  'Tests define one linear hierarchy with default keys and never look at the parent again.',
  [SC, FB], [('class construction', SC + ' Schema.__init_subclass__')], [('__fields__ / __load_fields__', 'fields of a schema class by name and by load key', SC)], ['class definition'])
p('S18', 'A field belongs to one schema; copies are unbound and independent',
  'A field object can be bound to one schema attribute only: binding it again is refused with RuntimeError and leaves the original binding intact. A copied field has the same options but is unbound, and registering or removing validators on the copy or on the original never affects the other.',
  ['programs', 'histories'], 'every field, every sequence of bind, copy and validator operations',
  'One test rebinds one field and copies one without validators.',
  [FB], [('bind/unbind', FB + ' Field._bind, _unbind'), ('copy', FB + ' Field.copy')], [], ['Field.copy'])
p('S19', 'A schema copy is independent of its original',
  'Copying a schema yields an object of the same class with the same field values, a context of its own that belongs to the copy, is initialised and holds a copy of the state; later assignments, updates or context changes on either never affect the other.',
  ['histories'], 'every schema and every later sequence of operations on either object',
  'The test performs two assignments on a four-string schema; ownership of the context is not checked.',
  [SC, CT], [('copy', SC + ' Schema.copy; ' + CT + ' SchemaContext._copy')], [FV], ['Schema.copy'])
p('S20', 'Processing data never mutates definitions, other objects or the input',
  'Constructing, assigning, updating, reading, dumping or copying schemas, and validating types, writes only to the schema object concerned, its own context and objects created during the call. Field and validator definitions, schema classes, configuration, type expressions, other schema objects and the caller\'s input data are never modified by the library (only the record of unsupported types already warned about is kept), so operations on different objects cannot influence each other in any order or interleaving.',
  ['histories', 'schedules', 'inputs'], 'every sequence and interleaving of operations on distinct objects',
  'Interference shows only across operations in particular orders or threads, which unit tests on fresh schemas do not sample.',
  [SC, FB, TV, CT], [('copies of shared tables', SC + ' _prepare_from_data; ' + TV + ' validate_types')], [], ['all operations'])
p('S21', 'A schema uses its own configuration, else the inherited one, else the defaults',
  'A schema class is governed by the configuration class declared in its body, otherwise by that of its parent schema, otherwise by the default configuration. Automatic slots are added exactly when the governing configuration is slotted and the class declares none itself, and the automatic repr exactly when it asks for one and the class defines none itself.',
  ['programs', 'configurations'], 'every class hierarchy and every configuration',
  'Tests use one-level hierarchies; precedence and the interplay with explicit definitions is sampled once.',
  [SC, CF], [('metaclass', SC + ' _SchemaMeta.__new__'), ('repr', SC + ' Schema.__init_subclass__')], [], ['class definition'])
p('T01', 'Strict primitive fields accept exactly their own type, unchanged',
  'With strict checking on (the default), the string, integer, float and boolean fields accept a value exactly when it is an instance of str, int, float or bool respectively, store the very same object, and dump it unchanged. Every other value is rejected with that field\'s invalid-datatype error.',
  ['inputs'], 'every value',
  'Tests try one wrong value per field.',
  [PR], [('type gate', PR + ' _process_value, value_load, value_dump')], [], ['fields.String/Integer/Float/Boolean'])
p('T02', 'Lenient primitive fields convert by type or report a coercion error',
  'With strict checking off, a value already of the field\'s type is stored unchanged and any other value is replaced by str(), int() or float() of it; the boolean field gives True or False exactly when the string form of the value is among its true or false values. Whenever no conversion exists, whatever exception the conversion raises, the value is rejected with that field\'s coercion-failed error and nothing else escapes.',
  ['inputs', 'fault_sequences'], 'every value, including ones whose conversion raises arbitrary exceptions',
  'Tests try one unconvertible string per field.',
  [PR], [('coercion', PR + ' _process_value')], [], ['fields.*(strict=False)'])
p('T03', 'Structure and typing fields accept only values that pass type validation',
  'The dict, typed-dict, list, set, literal, union and type-expression fields accept a value only if it has the field\'s container kind (where there is one) and conforms to the declared type arguments; without type arguments the container kind alone decides, and the any field accepts everything. An accepted value is stored and dumped as the very same object; a value that fails is rejected with that field\'s own error, carrying all messages of the type validation.',
  ['inputs'], 'every value and every declaration',
  'Tests try a handful of values per field.',
  [ST, TY, TV], [('value_load', ST + ' / ' + TY)], [], ['fields.Dict/TypedDict/List/Set/Literal/Union/TypeExpr/Any'])
p('T04', 'Type expressions are enforced at every position',
  'For supported type expressions a value is accepted exactly when its outer kind matches and every element, key, value and tuple position, at any nesting depth, conforms to the corresponding type argument: all positions of sequences (lists, sets or tuples given for Sequence), exact length of fixed tuples, at least one alternative of a union, one of the listed literals, and the wrapped type of Required/NotRequired. Every rejection carries at least one message.',
  ['inputs', 'programs'], 'every supported type expression and every value',
  'Tests check about thirty (type, value) pairs; an unchecked position or construct is invisible to them.',
  [TV], [('dispatch and handlers', TV + ' TypeValidator')], [], ['validate_types', 'fields using type expressions'])
p('T05', 'Unsupported type expressions are accepted with a warning, never an error',
  'A value checked against a type expression the library does not support is accepted, and the library neither crashes nor rejects it. A warning is issued the first time such a type is met while these warnings are switched on in the global configuration, and none at all while they are switched off.',
  ['inputs', 'programs', 'configurations'], 'every unsupported type expression at every position',
  'One test passes one unsupported type.',
  [TV], [('fallbacks', TV + ' TypeValidator._handle_origin, _process_struct, _process_value, _warn_unsupported')], [], ['validate_types'])
p('T06', 'Typed dictionaries: declared keys only, required keys present, values conform',
  'A value checked against a typed dictionary is accepted exactly when it is a dict, has no undeclared key, has every required key and each present value conforms to its declared type. A key is required if marked Required, not required if marked NotRequired, and otherwise according to the totality of the class that declared it.',
  ['inputs', 'programs'], 'every typed dictionary class (inherited totality included) and every value',
  'Tests use three small classes whose unmarked keys all have plain types.',
  [TV], [('typed dict handler', TV + ' TypeValidator._handle_type_typed_dict')], [], ['fields.TypedDict', 'validate_types'])
p('T07', 'validate_types reports exactly the offending keys and leaves its inputs alone',
  'Validating a mapping of values against a mapping of types raises the type validation error exactly when a supplied key is not expected (unless extras are ignored), a supplied value does not conform, or an expected key is missing (unless missing keys are ignored); the error lists every such key and no other, and neither mapping is modified.',
  ['inputs', 'configurations'], 'every pair of mappings and both flags',
  'Tests use single-key mappings and each flag once.',
  [TV], [('driver', TV + ' validate_types, TypeValidator.validate')], [], ['validate_types'])
p('N01', 'Nested schemas load, fail and dump consistently',
  'An object field stores an instance of its schema class as is, turns a mapping into a new instance built with the declared init arguments, and rejects anything else with its invalid-datatype error. All errors of the nested schema are reported under the outer field, with their nested structure, both when loading and when dumping; a None value dumps as None.',
  ['inputs', 'programs'], 'every nesting and every value',
  'Tests use one nested schema with one missing field and never dump a null or failing nested schema.',
  [NE], [('value_load / value_dump', NE + ' Object')], [], ['fields.Object'])
p('V01', 'Range and Length accept exactly their inclusive bounds',
  'The range validator accepts exactly the integers from its lower to its upper bound inclusive (zero to the bound when only one is given), and one built from a standard range accepts exactly the members of that range. The length validator accepts exactly values whose length is at least the minimum, if given, and at most the maximum, if given, exact meaning both.',
  ['inputs', 'configurations'], 'every bound combination and every value',
  'Tests try values around a few bounds; stepped standard ranges or zero bounds are not covered.',
  [VA], [('Range, Length', VA)], [], ['validate.Range', 'validate.Length'])
p('V02', 'Exclude, Or and Regex decide exactly as declared',
  'The exclusion validator rejects exactly the listed values. The or-validator accepts exactly when at least one of its validators accepts, treating only ValueError, AssertionError and FieldError as rejection. The regex validator rejects exactly when the match mode chosen (match, full match or search) finds nothing.',
  ['inputs', 'programs'], 'every value and every list of validators',
  'Tests try a few values with two alternatives.',
  [VA], [('Exclude, Or, Regex', VA)], [], ['validate.Exclude/Or/Regex'])
p('V03', 'Validator registration keeps raw and normal validators apart',
  'Adding, removing, clearing and listing validators act on the raw or on the normal validators according to the validator\'s own raw marking, or else the raw argument; removing an unregistered validator is a no-op; clearing and listing without a choice act on both. A validator passed at field creation, added later or declared with the decorator is registered exactly once with the marking it was declared with.',
  ['programs', 'histories'], 'every sequence of registrations',
  'One test runs one sequence.',
  [FB, VA, SC], [('registry', FB + ' Field.add_validator etc.; ' + VA + ' field')], [], ['Field.add_validator/remove_validator/clear_validators/walk_validators'])
p('E01', 'Every built-in failure is phrased through the format hook with its own code',
  'Each error the library produces for a field goes through that field\'s error formatting hook with the error code of that failure, the field, the schema, a dictionary of metadata and the offending value (no value only when the data has none); a string or field error the hook returns is used, and None falls back to the default message. Every error code a built-in field can report has its own specific default message.',
  ['programs', 'inputs'], 'every field class, error code and overridden hook',
  'Tests override one field\'s formatting.',
  [FB, PR, ST, TY, NE, CT], [('formatting', FB + ' Field._call_format_error, _get_default_error_message'), ('context', CT + ' ErrorContext')], [], ['Field.format_error'])
p('E02', 'Error reports lose nothing',
  'An error whose message is a list, tuple or set is expanded into one error per element, each keeping the key, state, schema and context of the original. The text of an error with a printable message is that message. The raw form lists every error\'s message under its key, converting nested structures element by element, and for messages made of any nesting of lists, dictionaries and printable values neither building the error nor its raw form ever fails or drops, merges or duplicates a message.',
  ['inputs', 'programs'], 'every message shape a user or nested schema can produce',
  'Tests only look at the first message of simple errors.',
  [EX], [('flatten and raw', EX + ' ValidationError')], [], ['ValidationError.errors', 'ValidationError.raw'])
p('E03', 'The text of an error shows every message once under its fields',
  'The text of a validation error can always be had. It names the schema, gives the number of failing fields, and shows each failing field once, with its attribute name too when its key is another, with its messages below it, indented more than the field; the keys of a nested message are shown the same way, below the key they belong to and indented by depth. Every message appears exactly once, under exactly its own keys.',
  ['inputs'], 'every error structure, nested to any depth',
  'Tests match substrings of the text of flat errors.',
  [EX], [('layout', EX + ' ValidationError._make_message')], [], ['str(ValidationError)'])
p('C01', 'Context objects tell user code the truth about its operation',
  'A deserializer, validator or serializer is given a value context of its own for the value it works on, naming that field, value and schema; the state of that context is a fresh dictionary seen only by the code that processes the same value, never by that of another field or operation. While dumping, included_fields holds exactly the names of the fields selected for that dump and no other name. The schema context names the schema object, the configuration that governs it and the very state object given to the constructor (None without one) from the first piece of user code on and keeps them through every operation; a callable default is called with that context and the field.',
  ['inputs', 'programs', 'configurations'], 'every field, value, selection and state, in construction, update, assignment and dumping',
  'Tests look at one context of a schema with one or two fields; state shared between fields, lost or replaced states and wrong included names need several fields and unusual selections.',
  [CT, SC, FB], [('value contexts', CT + ' _BaseValueContext, LoadContext, DumpContext'), ('schema context', CT + ' SchemaContext'), ('where they are made', SC + ' _process_field_value, _prepare_from_data, dump')], [], ['arguments of value_load, value_dump, validators and callable defaults', 'Schema.context'])
p('P01', 'Operations on different schemas share no mutable state',
  'Constructing, updating, assigning, reading, copying and dumping keep everything they record while running in the schema object concerned, in objects of their own, or in context variables, which are separate for every thread and task. They never write a module global, a class attribute, a default argument or anything reachable from one, so operations that overlap in other threads or tasks, or are nested in user code, cannot disturb each other.',
  ['schedules', 'programs'], 'every interleaving of operations on different schema objects, in threads, tasks or nested through user code',
  'Tests run one operation at a time in one thread; state that is shared by accident behaves correctly until two operations overlap.',
  [SC, FB, EX, UT, NE], [('ambient record', UT + ' current_schema, current_field_key, current_context'), ('operations', SC + ' Schema; ' + FB + ' Field'), ('built-in fields', 'oblate/fields')], [VAR], ['results of overlapping operations'])
p('A01', 'A field keeps the options it is declared with',
  'A field of any built-in or user class created with any combination of options reports exactly them: whether None is allowed, whether it is frozen, its default (also None or any falsy value) and whether it has one; it is required unless declared otherwise or given a default. Its load key is data_key if given, else load_key, else the name it is declared under, its dump key likewise, and its extras are the dictionary given or else an empty dictionary of its own.',
  ['programs', 'configurations'], 'every field class and combination of options',
  'Tests create fields with one or two options; a combination of options, a falsy value or a class that drops an option goes unnoticed.',
  [FB, PR, ST, TY, NE], [('options', FB + ' Field.__init__, load_key, dump_key, default, has_default'), ('built-in classes', 'oblate/fields: every __init__')], [], ['attributes of Field objects'])
p('G01', 'Global options hold exactly what was set and refuse the rest',
  'An option given to a global configuration object at creation or set on it later is what that object reports from then on, the other options and other configuration objects keep theirs, and an option never given has its documented default. A value of the wrong kind (an error class that is no validation error class, a switch that is no boolean) is refused with an exception and changes nothing.',
  ['configurations', 'histories'], 'every sequence of settings on any number of configuration objects',
  'Tests set each option once, to a proper value.',
  ['oblate/configs.py'], [('options', 'oblate/configs.py GlobalConfig, _ConfigOption')], [], ['oblate.config'])
p('Y01', 'The public API is statically typed as documented',
  'To a static type checker, a field read from a schema class is the field, a field read from a schema object has the field\'s value type, assigning, constructing or validating with values of the wrong type is reported, and correct uses are accepted.',
  ['programs'], 'every program that uses the public API under a static type checker',
  'Runtime tests never run a type checker; annotations have no runtime effect.',
  [FB, PR, NE, TY, ST, VA, SC], [('overloads and generics', FB + ' Field.__get__/__set__ and field classes; ' + VA + ' field')], [], ['mypy'])
p('E04', 'Errors identify what they are about',
  'A frozen error carries the schema object when that schema is frozen, else the frozen field. A field-not-set error carries the field, the schema object and, as name and field_name, the name it was asked for by. A validation error carries the schema it was raised for. The field attribute of a field error is the field declared under its key, and None for a key no field has. The texts of frozen and field-not-set errors name the schema class or field concerned.',
  ['inputs', 'programs', 'histories'], 'every error that any operation on a schema object can end with',
  'Tests look at messages; what an error object leads to is read only by handlers, on paths tests do not take.',
  [EX, SC, FB], [('error attributes', EX + ' FieldError.field, ValidationError, FieldNotSet, FrozenError'), ('where they are raised', SC + ' update, get_value_for; ' + FB + ' Field.__get__, __set__')], [], ['FrozenError.entity', 'FieldNotSet.field', 'FieldError.field'])
p('R01', 'The automatic repr shows exactly the set fields',
  'The repr of a schema object with automatic repr names its class and shows every field that has a value once, by its name and with its value, in any order, and no other field or value. Taking it changes nothing.',
  ['inputs', 'histories'], 'every set of fields with values',
  'Tests take the repr of one fully set object.',
  [SC], [('repr', SC + ' _schema_repr and the repr option')], [], ['repr(Schema)'])
p('V04', 'A validator object runs its own validate method',
  'An instance of any subclass of Validator, when called, runs its validate method exactly once with the value and the context it is given, and ends as that method does: an error it raises is raised unchanged, and a return counts as acceptance. The class is a raw validator exactly when it is declared with raw=True.',
  ['programs'], 'every validator class, declared raw or not, and every value',
  'Tests use one or two validator classes that raise ValueError.',
  [VA], [('validator base class', VA + ' Validator.__call__, __init_subclass__')], [], ['Validator subclasses'])
p('X01', 'Validation performance',
  'Loading, validating and dumping take time proportional to the size of the data and the number of fields and validators, with no hidden quadratic cost.',
  ['inputs'], 'every input size',
  'Tests use tiny inputs and measure nothing.',
  [SC, TV], [('loops', SC)], [], ['wall time'])
p('X02', 'Load and dump round-trip',
  'Loading the dump of a schema whose fields use equal load and dump keys yields a schema with equal field values, for every custom field whose serializer inverts its deserializer.',
  ['inputs', 'programs'], 'every schema and value',
  'Tests compare one or two dumps to the input.',
  [SC, FB], [('load and dump', SC)], [], ['Schema.dump'])
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P), encoding='utf-8')
assert all(len(x['title']) <= 80 for x in P), [x['title'] for x in P if len(x['title'])>80]
print(len(P))
