From 470eb70cca7a139306ee3acb8d51e370a3f4c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 01/27] fix: reset the current load context on every exit of
 value processing

A None value, or an unexpected exception from a raw validator, left the
load context of that value set, so later unrelated field errors carried it.
---
 oblate/schema.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a541326..53d8488 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -255,16 +255,17 @@ class Schema(metaclass=_SchemaMeta):
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
 
-        if value is None:
-            if field.none:
-                self._field_values[name] = None
-            else:
-                errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
-            return errors
-
-        if not lazy_validation:
-            validator_errors.extend(field._run_validators(value, context, raw=True))
         try:
+            if value is None:
+                if field.none:
+                    self._field_values[name] = None
+                else:
+                    errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
+                return errors
+
+            if not lazy_validation:
+                validator_errors.extend(field._run_validators(value, context, raw=True))
+
             final_value = field.value_load(value, context)
         except (ValueError, AssertionError, FieldError) as err:
             if not isinstance(err, FieldError):
-- 
2.43.0


From 0d4e48a9547e23c351caea2eac00d4b352010780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 02/27] fix: run raw validators on None when assigning or
 updating a field

Raw validators saw a None value at construction but were skipped for it
by assignment and Schema.update, which accepted values they reject.
---
 oblate/schema.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 53d8488..39030f4 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -256,16 +256,17 @@ class Schema(metaclass=_SchemaMeta):
             validators.append((field, value, context, True))
 
         try:
+            if not lazy_validation:
+                validator_errors.extend(field._run_validators(value, context, raw=True))
+
             if value is None:
-                if field.none:
-                    self._field_values[name] = None
-                else:
+                if not field.none:
                     errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
+                elif not validator_errors:
+                    self._field_values[name] = None
+                errors.extend(validator_errors)
                 return errors
 
-            if not lazy_validation:
-                validator_errors.extend(field._run_validators(value, context, raw=True))
-
             final_value = field.value_load(value, context)
         except (ValueError, AssertionError, FieldError) as err:
             if not isinstance(err, FieldError):
-- 
2.43.0


From dc7257af26880bda3e8493018b5b9d6014a78c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 03/27] fix: report raw validator errors also when the value
 fails to load

On assignment and update the errors of raw validators were dropped when
deserialization failed too; construction reports both.
---
 oblate/schema.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index 39030f4..5b977ed 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -271,6 +271,7 @@ class Schema(metaclass=_SchemaMeta):
         except (ValueError, AssertionError, FieldError) as err:
             if not isinstance(err, FieldError):
                 err = FieldError._from_standard_error(err, schema=self, field=field, value=value)
+            errors.extend(validator_errors)
             errors.append(err)
         else:
             if not lazy_validation:
-- 
2.43.0


From f88064e0dbc3ecafa2b1ad43b5fa3eacc1566e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 04/27] fix: set the current schema while updating a schema

Schema.update never set it, so a failing update raised LookupError (or an
error naming whichever schema was processed last) instead of a proper
ValidationError.
---
 oblate/schema.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 5b977ed..a9c4837 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -418,25 +418,29 @@ class Schema(metaclass=_SchemaMeta):
         fields = self.__load_fields__
         errors: List[FieldError] = []
         old_values = self._field_values.copy()
+        schema_token = current_schema.set(self)
 
-        for key, value in data.items():
-            token = current_field_key.set(key)
-            try:
-                field = fields[key]
-            except KeyError:
-                if not ignore_extra:
-                    errors.append(FieldError(f'Invalid or unknown field.'))
-            else:
-                if field.frozen:
-                    raise FrozenError(field)
-                errors.extend(self._process_field_value(field, value))
-            finally:
-                current_field_key.reset(token)
-
-        if errors:
-            # fallback to original state in case update fails
-            self._field_values = old_values
-            raise config.validation_error_cls(errors)
+        try:
+            for key, value in data.items():
+                token = current_field_key.set(key)
+                try:
+                    field = fields[key]
+                except KeyError:
+                    if not ignore_extra:
+                        errors.append(FieldError(f'Invalid or unknown field.'))
+                else:
+                    if field.frozen:
+                        raise FrozenError(field)
+                    errors.extend(self._process_field_value(field, value))
+                finally:
+                    current_field_key.reset(token)
+
+            if errors:
+                # fallback to original state in case update fails
+                self._field_values = old_values
+                raise config.validation_error_cls(errors)
+        finally:
+            current_schema.reset(schema_token)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
         """Serializes the schema to raw form.
-- 
2.43.0


From 36e2fdbf70d5b0b230274b9cfd7a7e8a01d41fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 05/27] fix: roll back Schema.update on every exception

Only validation failures were rolled back: a FrozenError or an unexpected
exception from user code left the fields processed before it updated.
---
 oblate/schema.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a9c4837..ace753f 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -436,9 +436,11 @@ class Schema(metaclass=_SchemaMeta):
                     current_field_key.reset(token)
 
             if errors:
-                # fallback to original state in case update fails
-                self._field_values = old_values
                 raise config.validation_error_cls(errors)
+        except BaseException:
+            # fallback to original state in case update fails
+            self._field_values = old_values
+            raise
         finally:
             current_schema.reset(schema_token)
 
-- 
2.43.0


From 0b32c6d8913c5fbda9ba3323298393ed521aa5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 06/27] fix: restore the current schema after Schema.dump

Dumping left the dumped schema set as the current one. After a nested
object was dumped, errors of the outer schema were attributed to it.
---
 oblate/schema.py | 57 +++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index ace753f..aa520e8 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -477,36 +477,39 @@ class Schema(metaclass=_SchemaMeta):
         if exclude is not MISSING:
             fields = fields.difference(set(exclude))
 
-        current_schema.set(self)
         out: Dict[str, Any] = {}
         errors: List[FieldError] = []
+        schema_token = current_schema.set(self)
 
-        for name in fields:
-            field = self.__fields__[name]
-            try:
-                value = self._field_values[name]
-            except KeyError:  # pragma: no cover
-                continue
-
-            context = DumpContext(
-                schema=self,
-                field=field,
-                value=value,
-                included_fields=fields,
-            )
-            field_token = current_field_key.set(field.load_key)
-            context_token = current_context.set(context)
-            try:
-                out[field.dump_key] = field.value_dump(value, context)
-            except (ValueError, AssertionError, FieldError) as err:
-                if not isinstance(err, FieldError):
-                    err = FieldError._from_standard_error(err, schema=self, field=field, value=value)
-                errors.append(err)
-            finally:
-                current_field_key.reset(field_token)
-                current_context.reset(context_token)
+        try:
+            for name in fields:
+                field = self.__fields__[name]
+                try:
+                    value = self._field_values[name]
+                except KeyError:  # pragma: no cover
+                    continue
+
+                context = DumpContext(
+                    schema=self,
+                    field=field,
+                    value=value,
+                    included_fields=fields,
+                )
+                field_token = current_field_key.set(field.load_key)
+                context_token = current_context.set(context)
+                try:
+                    out[field.dump_key] = field.value_dump(value, context)
+                except (ValueError, AssertionError, FieldError) as err:
+                    if not isinstance(err, FieldError):
+                        err = FieldError._from_standard_error(err, schema=self, field=field, value=value)
+                    errors.append(err)
+                finally:
+                    current_field_key.reset(field_token)
+                    current_context.reset(context_token)
 
-        if errors:
-            raise config.validation_error_cls(errors)
+            if errors:
+                raise config.validation_error_cls(errors)
+        finally:
+            current_schema.reset(schema_token)
 
         return out
-- 
2.43.0


From 58ee5e1b937e6837999b90fe5fcbfc953de1d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:52 +0000
Subject: [PATCH 07/27] fix: key errors of an assignment by the load key of the
 field

FieldError.key and FieldError.field use load keys everywhere else; for a
field with a load key an assignment error had the field None.
---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 6b35350..3f08b77 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -186,7 +186,7 @@ class Field(Generic[RawValueT, FinalValueT]):
             raise FrozenError(self)
 
         schema_token = current_schema.set(instance)
-        field_name = current_field_key.set(self._name)
+        field_name = current_field_key.set(self.load_key)
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-- 
2.43.0


From b529710bea4ebe70e06b4f348904b365a87d8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:55 +0000
Subject: [PATCH 08/27] fix: report field errors raised by callable defaults as
 validation errors

Errors raised in user code are documented to be wrapped by the validation
error; those raised by a callable default escaped as they were.
---
 oblate/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index aa520e8..32faa06 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -203,6 +203,10 @@ class Schema(metaclass=_SchemaMeta):
                 if field._default is not MISSING:
                     self._field_values[field._name] = field._default(self._context, field) \
                                                       if callable(field._default) else field._default
+            except (ValueError, AssertionError, FieldError) as err:
+                if not isinstance(err, FieldError):
+                    err = FieldError._from_standard_error(err, schema=self, field=field)
+                errors.append(err)
             finally:
                 current_field_key.reset(token)
 
-- 
2.43.0


From c85f7fa3f535ca18f6a93cf3cb7233d9bc0a4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 09/27] fix: drop the load key of a field overridden in a
 subclass

---
 oblate/schema.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 32faa06..34cdd61 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -141,17 +141,14 @@ class Schema(metaclass=_SchemaMeta):
             # When a schema is subclassed, the fields have to be copied so
             # the parent schema's fields are not modified
             cls.__fields__ = cls.__fields__.copy()
-            cls.__load_fields__ = cls.__load_fields__.copy()
         else:
             cls.__fields__ = {}
-            cls.__load_fields__ = {}
 
         members = vars(cls).copy()
         for name, member in members.items():
             if isinstance(member, Field):
                 member._bind(name, cls)
                 cls.__fields__[name] = member  # type: ignore
-                cls.__load_fields__[member.load_key] = member  # type: ignore
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
@@ -164,6 +161,9 @@ class Schema(metaclass=_SchemaMeta):
 
                 field.add_validator(member)
 
+        # An overridden field must not stay reachable by its own load key
+        cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
+
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
-- 
2.43.0


From 80c2cc3d3a357ad7202c39285b54be0b94eabc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:03 +0000
Subject: [PATCH 10/27] fix: inherit the fields of every base schema

---
 oblate/schema.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index 34cdd61..b2330c6 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -141,6 +141,11 @@ class Schema(metaclass=_SchemaMeta):
             # When a schema is subclassed, the fields have to be copied so
             # the parent schema's fields are not modified
             cls.__fields__ = cls.__fields__.copy()
+            for base in reversed(cls.__mro__[1:]):
+                # Fields are inherited in the same order as other attributes
+                for name, field in vars(base).get('__fields__', {}).items():
+                    if vars(base).get(name) is field:
+                        cls.__fields__[name] = field
         else:
             cls.__fields__ = {}
 
-- 
2.43.0


From f459dba96ac5adf3baf259c629723f8c01f68204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 11/27] fix: apply validators that name an inherited field to
 the subclass only

---
 oblate/schema.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index b2330c6..293820e 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -150,17 +150,23 @@ class Schema(metaclass=_SchemaMeta):
             cls.__fields__ = {}
 
         members = vars(cls).copy()
-        for name, member in members.items():
+        for name, member in vars(cls).copy().items():
             if isinstance(member, Field):
                 member._bind(name, cls)
                 cls.__fields__[name] = member  # type: ignore
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
+                if isinstance(field, Field) and field._schema in cls.__mro__[1:]:
+                    field = field._name
                 if isinstance(field, str):
-                    try:
-                        field = members[field]
-                    except KeyError:  # pragma: no cover
-                        pass
+                    if field not in members and field in cls.__fields__:
+                        # The field of parent schema must not be modified so
+                        # the validator is added to a copy of it.
+                        inherited = cls.__fields__[field].copy()
+                        inherited._bind(field, cls)
+                        setattr(cls, field, inherited)
+                        cls.__fields__[field] = members[field] = inherited
+                    field = members.get(field, field)
                 if not isinstance(field, Field):
                     raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover
 
-- 
2.43.0


From 9fa1cf160d29b53b1c5e1a18f5a69d1a6daf8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:06 +0000
Subject: [PATCH 12/27] fix: dump a None value of an object field as None

---
 oblate/fields/nesting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index d29bcdd..d213493 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -115,4 +115,4 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
         raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
 
     def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
-        return value.dump()
+        return value if value is None else value.dump()
-- 
2.43.0


From 108d98d76ae34dd39f2d166f0bd09982ab7716df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 13/27] fix: report errors of nested schemas under the outer
 field when dumping

---
 oblate/fields/nesting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index d213493..914efc1 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -115,4 +115,7 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
         raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
 
     def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
-        return value if value is None else value.dump()
+        try:
+            return value if value is None else value.dump()
+        except ValidationError as err:
+            raise FieldError(err._raw_std(include_message=False)) from None
-- 
2.43.0


From c9646c091bf6a484b38d91d3f31779f263e9862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 14/27] fix: build the report of errors with arbitrary
 dictionary messages

---
 oblate/exceptions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index ed89236..4cd9ed9 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -216,21 +216,24 @@ class ValidationError(OblateException):
 
         indent = level*4
         for name, errors in field_errors.items():
+            if not isinstance(errors, list):
+                errors = [errors]
             builder.append(f'{" "*indent}│')
             message = f'{" "*indent}└── In field {name}:'
-            if errors:
+            if errors and isinstance(errors[0], FieldError):
                 field = errors[0].field
                 if field and name != field._name:
                     message = f'{" "*indent}└── In field {name} ({field._name}):'
 
             builder.append(message)
             for idx, error in enumerate(errors):
-                if isinstance(error.message, dict):
-                    builder.append(self._make_message(error.message, level=level+1))  # type: ignore
+                text = error.message if isinstance(error, FieldError) else error
+                if isinstance(text, dict):
+                    builder.append(self._make_message(text, level=level+1))  # type: ignore
                     continue
 
                 prefix = '└──' if idx == len(errors) - 1 else '├──' 
-                builder.append(f'{" "*(indent+4)}{prefix} {error.message}')
+                builder.append(f'{" "*(indent+4)}{prefix} {text}')
 
         if level != 0:
             return '\n'.join(builder)
-- 
2.43.0


From bc1c7be8202319bd41c95bb3b8c450ea5936dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 15/27] fix: validate the type wrapped in Required and
 NotRequired

---
 oblate/type_validation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e1cfe3c..c96a23b 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -202,9 +202,7 @@ class TypeValidator:
 
     @classmethod
     def _handle_origin_required(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
-        args = get_args(tp)
-        origin = get_origin(args[0])
-        return cls._handle_origin(value, tp, origin)
+        return cls._process_value(value, get_args(tp)[0])
 
     _handle_origin_not_required = _handle_origin_required
 
-- 
2.43.0


From b95a1e65142accb3911395e849e8610f87e89df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 16/27] fix: respect the totality of the class that declared a
 typed dict key

---
 oblate/type_validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index c96a23b..e28355b 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -191,9 +191,9 @@ class TypeValidator:
 
         for key, value in typehints.items():
             origin = get_origin(value)
-            if (origin is None and not tp.__total__) or (origin is NotRequired):
-                # either no marker and total=False -> field is not required
-                # or NotRequired marker and total=True/False -> field is not required
+            if origin is NotRequired or (origin is not Required and key not in tp.__required_keys__):
+                # either NotRequired marker and total=True/False -> field is not required
+                # or no marker and declared by class with total=False -> field is not required
                 continue
 
             errors.append(f'Key {key!r} is required')
-- 
2.43.0


From fec2a7fc020c9ca12db4b68c55acdd7662f936da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 17/27] fix: validate every item of a tuple given for a
 sequence type

---
 oblate/type_validation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e28355b..56dd25d 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -327,13 +327,11 @@ class TypeValidator:
 
     @classmethod
     def _handle_origin_sequence(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
-        value_tp = type(value)
-        if value_tp is list:
-            return cls._handle_origin_list(value, tp)
-        if value_tp is set:
+        if isinstance(value, set):
             return cls._handle_origin_set(value, tp)
-        if value_tp is tuple:
-            return cls._handle_origin_tuple(value, tp)
+        if isinstance(value, tuple):
+            # Sequence[T] applies to all items of a tuple
+            return cls._handle_origin_list(list(value), tp)  # type: ignore
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
 
-- 
2.43.0


From dda48641bb0fb17e981df595609b09827d472c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 18/27] fix: reject tuples longer than the fixed tuple type

---
 oblate/type_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 56dd25d..80c6dce 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -323,6 +323,10 @@ class TypeValidator:
                         validated = False
                         errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')  # pragma: no cover
 
+            if len(value) > len(args):  # type: ignore
+                validated = False
+                errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
+
         return validated, errors
 
     @classmethod
-- 
2.43.0


From f482ddb618506d8f9ac290eb29683b0bb6e6a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 19/27] fix: perform type validation for Mapping types

---
 oblate/type_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 80c6dce..cadc221 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -345,6 +345,8 @@ class TypeValidator:
 
         if origin is collections.abc.Sequence:
             return cls._handle_origin_sequence(value, tp)
+        if origin is collections.abc.Mapping:
+            return cls._handle_origin_mapping(value, tp)
         if origin is dict:
             return cls._handle_origin_dict(value, tp)
         if origin is list:
@@ -367,7 +369,7 @@ class TypeValidator:
             return cls._handle_origin_required(value, tp)
         if origin is NotRequired:
             return cls._handle_origin_not_required(value, tp)
-        if origin in (list, set, dict, tuple, collections.abc.Sequence):
+        if origin in (list, set, dict, tuple, collections.abc.Sequence, collections.abc.Mapping):
             return cls._process_struct(value, tp)
         if origin is Literal:
             return cls._handle_origin_literal(value, tp)
-- 
2.43.0


From 7053a8963f0fcda82d2e599da70446356378d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 20/27] fix: accept any items for generic types without
 arguments

---
 oblate/type_validation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index cadc221..76118ea 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -229,7 +229,7 @@ class TypeValidator:
         if not isinstance(value, origin):
             return False, [f'Must be a valid {name.lower()}']
 
-        args = get_args(tp)
+        args = get_args(tp) or (Any, Any)
         errors: List[str] = []
         validated = True
         ktp = args[0]
@@ -261,7 +261,7 @@ class TypeValidator:
         if not isinstance(value, list):
             return False, [f'Must be a valid list']
 
-        args = get_args(tp)
+        args = get_args(tp) or (Any,)
         errors: List[str] = []
         validated = True
         vtp = args[0]
@@ -279,7 +279,7 @@ class TypeValidator:
         if not isinstance(value, set):
             return False, [f'Must be a valid set']
 
-        args = get_args(tp)
+        args = get_args(tp) or (Any,)
         errors: List[str] = []
         validated = True
         vtp = args[0]
@@ -296,6 +296,8 @@ class TypeValidator:
     def _handle_origin_tuple(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
         if not isinstance(value, tuple):
             return False, [f'Must be a valid tuple']
+        if tp is Tuple:
+            return True, []
 
         args = get_args(tp)
         errors: List[str] = []
-- 
2.43.0


From 40d41e42cfea26b2ebab727987afed33cb090358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 21/27] fix: warn about unsupported type expressions that are
 not classes

---
 oblate/type_validation.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 76118ea..a72e7bd 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -157,10 +157,16 @@ class TypeValidator:
     def _warn_unsupported(cls, tp: Any) -> None:
         from oblate.configs import config  # circular import
 
-        if tp in cls._warnings_issued or not config.warn_unsupported_types:
+        key = tp
+        try:
+            hash(tp)
+        except TypeError:
+            key = repr(tp)
+
+        if key in cls._warnings_issued or not config.warn_unsupported_types:
             return  # pragma: no cover
 
-        cls._warnings_issued.add(tp)
+        cls._warnings_issued.add(key)
         warnings.warn(
             cls._warning_unsupported_type.format(type=getattr(tp, '__name__', tp)),
             UserWarning,
@@ -391,7 +397,12 @@ class TypeValidator:
         if origin is None:
             if is_typeddict(tp):
                 return cls._handle_type_typed_dict(value, tp)
-            return isinstance(value, tp), [f'Must be of type {tp.__name__}']
+            try:
+                validated = isinstance(value, tp)
+            except TypeError:
+                cls._warn_unsupported(tp)
+                return True, []
+            return validated, [f'Must be of type {getattr(tp, "__name__", tp)}']
 
         return cls._handle_origin(value, tp, origin)
 
-- 
2.43.0


From 357c4bfd06d1dad5d09a57bd6e01f84a5ea33939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 22/27] fix: report the raw value when boolean coercion fails

---
 oblate/fields/primitive.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index fd0c7e1..0338ec9 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -199,10 +199,13 @@ class Boolean(Field[bool, bool]):
         if not isinstance(value, bool):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            value = str(value)
-            if value in self._true_values:
+            try:
+                string = str(value)
+            except Exception:
+                raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value) from None
+            if string in self._true_values:
                 return True
-            if value in self._false_values:
+            if string in self._false_values:
                 return False
             else:
                 raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value)
-- 
2.43.0


From aaea2186cfe9e78fcc2f58c7bb331d5712a3ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 23/27] fix: report failed string coercion with its documented
 error code

---
 oblate/fields/primitive.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 0338ec9..9441b80 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -57,6 +57,7 @@ class String(Field[str, str]):
         cannot be converted to relevant data type.
     """
     ERR_INVALID_DATATYPE = 'string.invalid_datatype'
+    ERR_COERCION_FAILED  = 'string.coercion_failed'
 
     def __init__(self, strict: bool = True, **kwargs: Any) -> None:
         self.strict = strict
@@ -66,13 +67,18 @@ class String(Field[str, str]):
         if not isinstance(value, str):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            return str(value)
+            try:
+                return str(value)
+            except Exception:
+                raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value) from None
         else:
             return value
 
     def _get_default_error_message(self, error_code: Any, context: ErrorContext) -> Union[FieldError, str]:
         if error_code == self.ERR_INVALID_DATATYPE:
             return 'Value must be a string'
+        if error_code == self.ERR_COERCION_FAILED:
+            return 'Failed to coerce value to string'
 
         return super()._get_default_error_message(error_code, context)
 
-- 
2.43.0


From b4e14513e12da1f4fff6a37ac9841d774b16eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 24/27] fix: respect the step of a standard range in
 Range.from_standard

---
 oblate/validate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/validate.py b/oblate/validate.py
index ab1a8c0..b0c55af 100644
--- a/oblate/validate.py
+++ b/oblate/validate.py
@@ -202,7 +202,9 @@ class Range(Validator[int]):
         would only include the integers accounted by the given standard :func:`range`
         (i.e upper bound not inclusive).
         """
-        return cls(obj.start, obj.stop - 1)
+        validator = cls(obj.start, obj.stop - 1)
+        validator._range = obj
+        return validator
 
 
 class Length(Validator[collections.abc.Sized]):
-- 
2.43.0


From 9983ad8c9a1ba9611406dcb34dc2d277c8e103c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 25/27] fix: respect a replaced oblate.config object

---
 oblate/fields/base.py     | 4 ++--
 oblate/schema.py          | 9 +++++----
 oblate/type_validation.py | 4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 3f08b77..eeb62ab 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -43,9 +43,9 @@ from oblate.validate import Validator, ValidatorCallbackT, InputT
 from oblate.utils import MISSING, current_field_key, current_schema
 from oblate.exceptions import FieldError, FrozenError
 from oblate.contexts import ErrorContext
-from oblate.configs import config
 
 import copy
+import oblate
 
 if TYPE_CHECKING:
     from oblate.contexts import LoadContext, DumpContext
@@ -190,7 +190,7 @@ class Field(Generic[RawValueT, FinalValueT]):
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-                raise config.validation_error_cls(errors)
+                raise oblate.config.validation_error_cls(errors)
         finally:
             current_schema.reset(schema_token)
             current_field_key.reset(field_name)
diff --git a/oblate/schema.py b/oblate/schema.py
index 293820e..3b4d740 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -38,11 +38,12 @@ from typing_extensions import Self
 from oblate.contexts import SchemaContext, LoadContext, DumpContext
 from oblate.utils import MISSING, current_field_key, current_context, current_schema
 from oblate.exceptions import FieldError, FieldNotSet, FrozenError
-from oblate.configs import config, SchemaConfig
+from oblate.configs import SchemaConfig
 
 import collections.abc
 import inspect
 import copy
+import oblate
 
 if TYPE_CHECKING:
     from oblate.fields.base import Field
@@ -233,7 +234,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_schema.reset(schema_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
         self._context._initialized = True
         self.__schema_post_init__()
@@ -451,7 +452,7 @@ class Schema(metaclass=_SchemaMeta):
                     current_field_key.reset(token)
 
             if errors:
-                raise config.validation_error_cls(errors)
+                raise oblate.config.validation_error_cls(errors)
         except BaseException:
             # fallback to original state in case update fails
             self._field_values = old_values
@@ -523,7 +524,7 @@ class Schema(metaclass=_SchemaMeta):
                     current_context.reset(context_token)
 
             if errors:
-                raise config.validation_error_cls(errors)
+                raise oblate.config.validation_error_cls(errors)
         finally:
             current_schema.reset(schema_token)
 
diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index a72e7bd..26a8a4f 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -155,7 +155,7 @@ class TypeValidator:
 
     @classmethod
     def _warn_unsupported(cls, tp: Any) -> None:
-        from oblate.configs import config  # circular import
+        import oblate  # circular import
 
         key = tp
         try:
@@ -163,7 +163,7 @@ class TypeValidator:
         except TypeError:
             key = repr(tp)
 
-        if key in cls._warnings_issued or not config.warn_unsupported_types:
+        if key in cls._warnings_issued or not oblate.config.warn_unsupported_types:
             return  # pragma: no cover
 
         cls._warnings_issued.add(key)
-- 
2.43.0


From 7f0e278250e81d897b048cba1024656552b7cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 26/27] fix: set the documented name attribute of FieldNotSet

---
 oblate/exceptions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index 4cd9ed9..ca0f299 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -70,6 +70,8 @@ class FieldNotSet(AttributeError, OblateException):
         self.field = field
         self.schema = schema
         super().__init__(f'Field {field._name!r} has no value set', field._name, schema)
+        # AttributeError resets this attribute when it is initialized
+        self.name = field_name
 
 
 class FrozenError(OblateException):
-- 
2.43.0


From 9e4e85d6fc60df17a6e664192c7e5613068bac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 27/27] fix: keep the message as text of errors split from a
 sequence

---
 oblate/exceptions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index ca0f299..a95e5b6 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -156,6 +156,7 @@ class FieldError(OblateException):
         copy.context = self.context
         copy.schema = self.schema
         copy._key = self._key
+        copy.args = (message,)
         return copy
 
     @property
-- 
2.43.0

