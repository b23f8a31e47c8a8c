"""Reading and assigning fields (a line marked 'rejected' must be reported, all others accepted)."""
from __future__ import annotations
import typing as t
from typing_extensions import assert_type
import oblate
from oblate import fields


class Point(t.TypedDict):
    x: int


class Inner(oblate.Schema):
    id = fields.Integer()


class Outer(oblate.Schema):
    string = fields.String()
    integer = fields.Integer(strict=False)
    boolean = fields.Boolean(true_values=['y'], false_values=('n',))
    real = fields.Float(none=True)
    anything = fields.Any()
    mapping = fields.Dict(str, int)
    typed = fields.TypedDict(Point)
    listing = fields.List(str)
    unique = fields.Set(int)
    inner = fields.Object(Inner, init_kwargs={'ignore_extra': True})
    literal = fields.Literal('a', 'b')
    expr = fields.TypeExpr(int)


# read from the class: the field itself
assert_type(Outer.string, fields.String)
assert_type(Outer.integer, fields.Integer)
assert_type(Outer.boolean, fields.Boolean)
assert_type(Outer.real, fields.Float)
assert_type(Outer.anything, fields.Any)
assert_type(Outer.mapping, fields.Dict[str, int])
assert_type(Outer.typed, fields.TypedDict[Point])
assert_type(Outer.listing, fields.List[str])
assert_type(Outer.unique, fields.Set[int])
assert_type(Outer.inner, fields.Object[Inner])
assert_type(Outer.literal, fields.Literal[str])
assert_type(Outer.expr, fields.TypeExpr[int])
assert_type(Outer.string.required, bool)
assert_type(Outer.string.load_key, str)
assert_type(Outer.string.dump_key, str)
Outer.string.no_such_attribute  # rejected

# read from an object: the value
o = Outer({})
assert_type(o.string, str)
assert_type(o.integer, int)
assert_type(o.boolean, bool)
assert_type(o.real, float)
assert_type(o.mapping, t.Dict[str, int])
assert_type(o.typed, Point)
assert_type(o.listing, t.List[str])
assert_type(o.unique, t.Set[int])
assert_type(o.inner, Inner)
assert_type(o.inner.id, int)
assert_type(o.literal, str)
assert_type(o.expr, int)
o.anything.whatever
o.string.load_key  # rejected
o.integer.upper()  # rejected
o.inner.missing  # rejected
o.no_such_field  # rejected

# assignment takes the raw value
o.string = 'text'
o.string = 1  # rejected
o.integer = 1
o.integer = 'one'  # rejected
o.boolean = True
o.boolean = 'yes'  # rejected
o.real = 1.5
o.real = 'x'  # rejected
o.anything = object()
o.mapping = {'a': 1}
o.mapping = {1: 'a'}  # rejected
o.mapping = ['a']  # rejected
o.typed = Point(x=1)
o.typed = {'y': 1}  # rejected
o.listing = ['a']
o.listing = [1]  # rejected
o.listing = 'a'  # rejected
o.unique = {1}
o.unique = {'a'}  # rejected
o.unique = [1]  # rejected
o.inner = Inner({})
o.inner = {'id': 1}
o.inner = 5  # rejected
o.inner = o  # rejected
o.literal = 'a'
o.literal = 1  # rejected
o.expr = 3
o.expr = 'three'  # rejected
