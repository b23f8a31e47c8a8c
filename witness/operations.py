"""Using schemas (a line marked 'rejected' must be reported)."""
from __future__ import annotations
import typing as t
from typing_extensions import assert_type
import oblate
from oblate import fields


class Sub(oblate.Schema):
    id = fields.Integer()


s = Sub({'id': 1})
Sub({'id': 1}, ignore_extra=True)
Sub(data={'id': 1})  # rejected
Sub()  # rejected
Sub(5)  # rejected
Sub([('id', 1)])  # rejected
Sub({1: 1})  # rejected
Sub({'id': 1}, ignore_extra='yes')  # rejected
Sub({'id': 1}, True)  # rejected
Sub({'id': 1}, unknown=True)  # rejected
assert_type(s, Sub)
assert_type(s.copy(), Sub)
assert_type(s.context, oblate.SchemaContext)
assert_type(s.dump(), t.Dict[str, t.Any])
assert_type(s.dump(include=['id']), t.Dict[str, t.Any])
s.dump(exclude=('id',))
s.dump(include=5)  # rejected
s.dump(exclude=[1])  # rejected
s.dump(['id'])  # rejected
s.update({'id': 2})
s.update({'id': 2}, ignore_extra=True)
s.update(5)  # rejected
s.update({1: 2})  # rejected
s.update({'id': 2}, True)  # rejected
s.update({'id': 2}, ignore_extra='yes')  # rejected
s.get_value_for('id')
s.get_value_for('id', None)
s.get_value_for(Sub.id)  # rejected
assert_type(oblate.Schema.__fields__, t.Dict[str, fields.Field[t.Any, t.Any]])

assert_type(s.context.schema, oblate.Schema)
assert_type(s.context.is_initialized(), bool)


def load(c: oblate.LoadContext, d: oblate.DumpContext, e: oblate.ErrorContext) -> None:
    assert_type(c.schema, oblate.Schema)
    assert_type(c.is_update(), bool)
    assert_type(d.schema, oblate.Schema)
    c.is_update = 5  # rejected


try:
    Sub({})
except oblate.ValidationError as err:
    assert_type(err.errors, t.List[oblate.FieldError])
    err.no_such_attribute  # rejected
