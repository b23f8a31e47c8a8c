"""Validators (a line marked 'rejected' must be reported)."""
from __future__ import annotations
import typing as t
import oblate
from oblate import fields, validate


class Sub(oblate.Schema):
    id = fields.Integer()


class Main(oblate.Schema):
    name = fields.String()
    size = fields.Integer()
    sub = fields.Object(Sub)
    tags = fields.List(str)

    @validate.field(name)
    def check_name(self, value: str, ctx: oblate.LoadContext) -> t.Any:
        assert value

    @validate.field(size)
    def check_size(self, value: int, ctx: oblate.LoadContext) -> t.Any:
        assert value

    @validate.field(sub)
    def check_sub(self, value: Sub, ctx: oblate.LoadContext) -> t.Any:
        assert value.id

    @validate.field(tags)
    def check_tags(self, value: t.List[str], ctx: oblate.LoadContext) -> t.Any:
        assert value

    @validate.field(size, raw=True)
    def check_raw(self, value: t.Any, ctx: oblate.LoadContext) -> t.Any:
        assert value

    @validate.field('size', raw=True)
    def check_named(self, value: t.Any, ctx: oblate.LoadContext) -> t.Any:
        assert value

    @validate.field('size')
    def check_named_int(self, value: int, ctx: oblate.LoadContext) -> t.Any:
        assert value


def check_name(schema: oblate.Schema, value: str, ctx: oblate.LoadContext) -> t.Any:
    return None


def check_size(schema: oblate.Schema, value: int, ctx: oblate.LoadContext) -> t.Any:
    return None


def no_context(schema: oblate.Schema, value: t.Any) -> t.Any:
    return None


validate.field(fields.String())(check_name)
validate.field(fields.Integer())(check_size)
validate.field(fields.String(), raw=False)(check_name)
validate.field(fields.Integer(), raw=False)(check_name)  # rejected
validate.field(fields.Integer())(no_context)  # rejected
validate.field('name')(no_context)  # rejected
validate.field(5)  # rejected
validate.field(fields.String(), raw='yes')  # rejected
validate.field('name', raw='yes')  # rejected
validate.field(fields.String(), True)  # rejected
Main.name.add_validator(check_name)
Main.name.add_validator(check_name, raw=True)
Main.name.add_validator(5)  # rejected
Main.name.remove_validator(check_name)
Main.name.remove_validator(check_name, raw=True)
Main.name.walk_validators()
Main.name.clear_validators()
Main.name.clear_validators(raw=True)


class Even(validate.Validator[int]):
    def validate(self, value: int, context: oblate.LoadContext, /) -> t.Any:
        assert value % 2 == 0


class Wrong(validate.Validator[int]):
    def validate(self, value: str, context: oblate.LoadContext, /) -> t.Any:  # rejected
        assert value


class Raw(validate.Validator[t.Any], raw=True):
    def validate(self, value: t.Any, context: oblate.LoadContext, /) -> t.Any:
        assert value


class RawWrong(validate.Validator[int], raw='yes'):  # rejected
    pass


fields.Integer(validators=[Even(), Raw(), check_size])
validate.Range(1)
validate.Range(1, 5)
validate.Range('a')  # rejected
validate.Range(1, 'b')  # rejected
validate.Range.from_standard(range(1, 5))
validate.Range.from_standard([1, 5])  # rejected
validate.Length(min=1, max=3)
validate.Length(min='a')  # rejected
validate.Length(max='a')  # rejected
validate.Exclude([1, 2])
validate.Or(validate.Range(3), check_size)
validate.Or(5)  # rejected
validate.Regex('[a-z]+')
validate.Regex(5)  # rejected
