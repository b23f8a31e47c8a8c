"""Defining fields, schemas and configurations (a line marked 'rejected' must be reported)."""
from __future__ import annotations
import typing as t
from typing_extensions import assert_type
import oblate
from oblate import fields, validate


class Inner(oblate.Schema):
    id = fields.Integer()


fields.String(strict='no')  # rejected
fields.Integer(strict=None)  # rejected
fields.Float(strict='x')  # rejected
fields.Boolean(strict='x')  # rejected
fields.Boolean(true_values=5)  # rejected
fields.Dict(str, int, None)  # rejected
fields.Dict(1, int)  # rejected
fields.List(5)  # rejected
fields.List(str, int)  # rejected
fields.Set('x')  # rejected
fields.TypedDict()  # rejected
fields.Object(int)  # rejected
fields.Object()  # rejected
fields.Object(Inner, init_kwargs=5)  # rejected
fields.TypeExpr()  # rejected
fields.Any(no_such_argument=True)  # rejected
fields.Any(required='no')  # rejected
fields.Any(none='no')  # rejected
fields.Any(frozen='no')  # rejected
fields.Any(load_key=1)  # rejected
fields.Any(dump_key=1)  # rejected
fields.Any(data_key=1)  # rejected
fields.Any(extras=[1])  # rejected
fields.Any(validators=5)  # rejected
fields.Any(none=True, required=False, frozen=True, default=3, extras={'a': 1}, data_key='x')
fields.Any(load_key='a', dump_key='b')
fields.String(False, none=True, required=False)
fields.Dict(), fields.List(), fields.Set()
fields.Union(str, int)


def default(ctx: oblate.SchemaContext, field: fields.Field[t.Any, t.Any]) -> int:
    return 1


fields.Integer(default=default)


class Number(fields.Field[str, float]):
    def value_load(self, value: str, context: oblate.LoadContext) -> float:
        return float(value)

    def value_dump(self, value: float, context: oblate.DumpContext) -> str:
        return str(value)


class BadLoad(fields.Field[str, float]):
    def value_load(self, value: str, context: oblate.LoadContext) -> str:  # rejected
        return value

    def value_dump(self, value: float, context: oblate.DumpContext) -> str:
        return str(value)


class BadDump(fields.Field[str, float]):
    def value_load(self, value: str, context: oblate.LoadContext) -> float:
        return float(value)

    def value_dump(self, value: str, context: oblate.DumpContext) -> str:  # rejected
        return str(value)


class Schema(oblate.Schema):
    number = Number()
    name = fields.String(validators=[validate.Length(max=3)])
    size = fields.Integer(validators=[validate.Range(1, 3)])

    def preprocess_data(self, data: t.Mapping[str, t.Any]) -> t.Mapping[str, t.Any]:
        return data

    def __schema_post_init__(self) -> None:
        pass


class BadHooks(oblate.Schema):
    def preprocess_data(self, data: t.List[str]) -> t.Mapping[str, t.Any]:  # rejected
        return {}


assert_type(Schema({}).number, float)
s = Schema({'a': 1})
s.number = '1.5'
s.number = 1.5  # rejected
copied: fields.Field[str, float] = Number().copy()
miscopied: fields.Field[int, float] = Number().copy()  # rejected
Number().value_load('x', 5)  # rejected
