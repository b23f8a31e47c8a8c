"""Errors, configuration and type validation (a line marked 'rejected' must be reported)."""
from __future__ import annotations
import typing as t
from typing_extensions import assert_type
import oblate
from oblate import fields, validate

err = oblate.FieldError('text', state=1)
oblate.FieldError({'a': 'b'}, 1)
oblate.FieldError()  # rejected
oblate.FieldError(message='text')  # rejected
assert_type(err.key, str)
oblate.ValidationError([err])
oblate.ValidationError('text')  # rejected
oblate.ValidationError(['text'])  # rejected
assert_type(oblate.ValidationError([err]).errors, t.List[oblate.FieldError])


class OwnError(oblate.ValidationError):
    def raw(self) -> t.Any:
        return {}


assert_type(oblate.config, oblate.GlobalConfig)
assert_type(oblate.config.validation_error_cls, t.Type[oblate.ValidationError])
assert_type(oblate.config.warn_unsupported_types, bool)
oblate.config.validation_error_cls = OwnError
oblate.config.validation_error_cls = ValueError  # rejected
oblate.config.validation_error_cls = OwnError([])  # rejected
oblate.config.warn_unsupported_types = False
oblate.config.warn_unsupported_types = 'no'  # rejected
oblate.config.no_such_option = 1  # rejected
oblate.GlobalConfig(no_such_option=1)  # rejected
oblate.GlobalConfig(warn_unsupported_types=False)
oblate.GlobalConfig(warn_unsupported_types='no')  # rejected
oblate.GlobalConfig(validation_error_cls=ValueError)  # rejected


class Configured(oblate.Schema):
    id = fields.Integer()

    class Config(oblate.SchemaConfig):
        ignore_extra = True
        frozen = True


class Misconfigured(oblate.Schema):
    class Config(oblate.SchemaConfig):
        frozen = 'yes'  # rejected by mypy


oblate.SchemaConfig.no_such_option  # rejected
oblate.SchemaConfig.frozen = 'yes'  # rejected

oblate.validate_types({'a': int}, {'a': 1})
oblate.validate_types({'a': int}, {'a': 1}, ignore_extra=True, ignore_missing=True)
oblate.validate_types([int], [1])  # rejected
oblate.validate_types({'a': int}, {1: 1})  # rejected
oblate.validate_types({'a': int}, {'a': 1}, True)  # rejected
oblate.validate_types({'a': int}, {'a': 1}, ignore_extra='yes')  # rejected
assert_type(oblate.TypeValidationError({'a': ['b']}).errors, t.Dict[str, t.List[str]])

string: fields.Field[str, str] = fields.String()
integer: fields.Field[int, int] = fields.Integer()
boolean: fields.Field[bool, bool] = fields.Boolean()
real: fields.Field[float, float] = fields.Float()
not_string: fields.Field[str, int] = fields.String()  # rejected
not_integer: fields.Field[str, str] = fields.Integer()  # rejected
not_boolean: fields.Field[str, str] = fields.Boolean()  # rejected
not_real: fields.Field[str, str] = fields.Float()  # rejected
sized: validate.Validator[t.Sized] = validate.Length(max=1)
pattern: validate.Validator[str] = validate.Regex('a')
limits: validate.Validator[int] = validate.Range(1)
not_sized: validate.Validator[int] = validate.Length(max=1)  # rejected
not_pattern: validate.Validator[int] = validate.Regex('a')  # rejected
not_limits: validate.Validator[str] = validate.Range(1)  # rejected
excluded: validate.Validator[str] = validate.Exclude('a')
either: validate.Validator[str] = validate.Or(pattern, sized)
