"""
Abstract descriptions of schemas: rendered into Python modules (what a user of the library writes), and, independently of
the library, into the structure that a database of each dialect must have.

A version of a schema is a tuple of modules, each module has a namespace and items (data classes and enumerations).
"""

import dataclasses
import datetime
import decimal
import keyword
import sys
import types
import uuid
from dataclasses import dataclass
from typing import Any, Iterable, Iterator, Optional

from pysqlsync.base import GeneratorOptions
from pysqlsync.formation.mutation import MutatorOptions
from pysqlsync.formation.py_to_sql import ArrayMode, EnumMode, StructMode

DEFAULT_SCHEMA = {"postgresql": "public", "mysql": "appdb", "mssql": "dbo", "oracle": "APP"}
FLAT = ("mysql", "oracle")  # dialects in which a namespace is a prefix of the table name
COMMENTS = ("postgresql", "mysql")  # dialects that store comments

Kind = tuple


@dataclass(frozen=True)
class F:
    "A field of a data class."

    name: str
    kind: Kind
    opt: bool = False
    key: Optional[str] = None  # primary, identity (primary key with generated values), unique
    default: Any = None  # Python literal, or member name of an enumeration
    doc: Optional[str] = None


@dataclass(frozen=True)
class C:
    "A data class; an entity if it has a primary key, or a composite type otherwise."

    name: str
    fields: tuple[F, ...]
    doc: Optional[str] = None

    @property
    def entity(self) -> bool:
        return any(f.key in ("primary", "identity") for f in self.fields)

    @property
    def primary(self) -> F:
        return next(f for f in self.fields if f.key in ("primary", "identity"))


@dataclass(frozen=True)
class E:
    "An enumeration of string (or integer) values."

    name: str
    values: tuple[str, ...]


@dataclass(frozen=True)
class M:
    "A module; `ns` is the database schema, or `None` for the current schema."

    ns: Optional[str]
    items: tuple = ()


Version = tuple[M, ...]


@dataclass(frozen=True)
class Mode:
    "Options that determine how classes map to the database."

    enum: Optional[str] = None
    array: Optional[str] = None
    foreign: bool = True
    initialize: bool = False
    struct: Optional[str] = None
    auto: bool = False
    drop_enum: bool = True
    drop_struct: bool = True
    drop_table: bool = True
    drop_namespace: bool = True

    def replace(self, **kwargs: Any) -> "Mode":
        return dataclasses.replace(self, **kwargs)

    def enum_mode(self, dialect: str) -> str:
        return self.enum or {"postgresql": "type", "mysql": "inline", "mssql": "relation", "oracle": "relation"}[dialect]

    def array_mode(self, dialect: str) -> str:
        return self.array or {"postgresql": "array"}.get(dialect, "json")

    def struct_mode(self, dialect: str) -> str:
        return self.struct or {"postgresql": "type"}.get(dialect, "json")


# Python source -----------------------------------------------------------------------

HEADER = """
import datetime, decimal, enum, ipaddress, uuid
from dataclasses import dataclass
from typing import Annotated, Literal, Optional, Union
from strong_typing.auxiliary import *
from strong_typing.core import JsonType
from pysqlsync.model.key_types import DEFAULT, Identity, PrimaryKey, Unique
"""


def type_text(kind: Kind, quoted: Iterable[str] = ()) -> str:
    "Python type expression; `quoted` are the names that need a forward reference."

    tag = kind[0]
    if tag == "int":
        return {1: "int8", 2: "int16", 4: "int32", 8: "int", -1: "uint8", -2: "uint16", -4: "uint32", -8: "uint64"}[kind[1]]
    if tag == "range":
        return f"Annotated[int, IntegerRange({kind[1]}, {kind[2]})]"
    if tag == "bool":
        return "bool"
    if tag == "float":
        return {4: "float32", 8: "float"}[kind[1]]
    if tag == "str":
        return "str" if len(kind) == 1 else f"Annotated[str, MaxLength({kind[1]})]"
    if tag == "dec":
        return "decimal.Decimal" if len(kind) == 1 else f"Annotated[decimal.Decimal, Precision({kind[1]}, {kind[2]})]"
    if tag == "datetime":
        return "datetime.datetime" if len(kind) == 1 else f"Annotated[datetime.datetime, TimePrecision({kind[1]})]"
    if tag == "bytes":
        return "bytes" if len(kind) == 1 else f"Annotated[bytes, Storage({kind[1]})]"
    if tag == "time" and len(kind) > 1:
        return f"Annotated[datetime.time, TimePrecision({kind[1]})]"
    if tag in ("date", "time", "timedelta"):
        return "datetime." + tag
    if tag == "uuid":
        return "uuid.UUID"
    if tag == "json":
        return "JsonType"
    if tag == "ipv4":
        return "ipaddress.IPv4Address"
    if tag == "ipv6":
        return "ipaddress.IPv6Address"
    if tag == "literal":
        return "Literal[" + ", ".join(repr(v) for v in kind[1]) + "]"
    if tag in ("enum", "struct", "ref"):
        return f'"{ident(kind[2])}"' if kind[2] in quoted else ident(kind[2])
    if tag == "xenum":
        return f"Union[{ident(kind[2])}, Annotated[str, MaxLength(64)]]"
    if tag in ("list", "set"):
        return f"{tag}[{type_text(kind[1], quoted)}]"
    if tag == "union":
        return "Union[" + ", ".join(type_text(k, quoted) for k in kind[1]) + "]"
    raise ValueError(kind)


def default_text(f: F) -> str:
    if f.kind[0] == "enum":
        return f"{ident(f.kind[2])}.{f.default}"
    v = f.default
    if isinstance(v, (datetime.date, datetime.time, datetime.timedelta)):
        return repr(v)
    if isinstance(v, decimal.Decimal):
        return f"decimal.Decimal({str(v)!r})"
    if isinstance(v, uuid.UUID):
        return f"uuid.UUID({str(v)!r})"
    return repr(v)


def member_name(value: str | int) -> str:
    name = "".join(ch if ch.isalnum() and ch.isascii() else f"_{ord(ch):x}_" for ch in str(value))
    return "M_" + name


def ident(name: str) -> str:
    "Name of an item or field in Python source; it is renamed later if it is not the name itself."

    return name if name.isidentifier() and not keyword.iskeyword(name) else "x_" + name.encode("utf-8").hex()


def source_text(m: M, known: Iterable[str]) -> str:
    """
    Source of a module.

    :param known: Names that the module imports.
    """

    lines = [HEADER]
    done: set[str] = set(known) - {item.name for item in m.items}
    for item in m.items:
        if isinstance(item, E):
            lines.append(f"@enum.unique\nclass {ident(item.name)}(enum.Enum):")
            lines.extend(f"    {member_name(v)} = {v!r}" for v in item.values)
        else:
            lines.append(f"@dataclass\nclass {ident(item.name)}:")
            doc = item.doc or ""
            params = [(ident(f.name), f.doc) for f in item.fields if f.doc is not None]
            if params:
                doc += "\n\n" + "\n".join(f":param {n}: {d}" for n, d in params)
            if doc:
                lines.append(f"    {doc!r}")
            quoted = {k[2] for f in item.fields for k in leaves(f.kind) if k[0] in ("enum", "struct", "ref") and k[2] not in done}
            for f in item.fields:
                text = type_text(f.kind, quoted)
                if f.opt:
                    text = f"Optional[{text}]"
                if f.key == "primary":
                    text = f"PrimaryKey[{text}]"
                elif f.key == "identity":
                    text = f"PrimaryKey[Identity[{text}]]"
                elif f.key == "unique":
                    text = f"Unique[{text}]"
                if f.default is not None:
                    text += " = " + default_text(f)
                lines.append(f"    {ident(f.name)}: {text}")
        done.add(item.name)
        lines.append("")
    return "\n".join(lines)


def leaves(kind: Kind) -> Iterator[Kind]:
    if kind[0] in ("list", "set"):
        yield from leaves(kind[1])
    elif kind[0] == "union":
        for k in kind[1]:
            yield from leaves(k)
    else:
        yield kind


def uses(m: M) -> set[Optional[str]]:
    "Namespaces of the items to which a module refers."

    fields = [f for i in m.items if isinstance(i, C) for f in i.fields]
    return {k[1] for f in fields for k in leaves(f.kind) if k[0] in ("enum", "xenum", "struct", "ref")}


def rename(cls: type, item: Any) -> None:
    "Gives a class and its fields the names of the description if they are not identifiers."

    if ident(item.name) != item.name:
        cls.__name__ = item.name
        if isinstance(item, C) and not item.doc and not any(f.doc for f in item.fields):
            cls.__doc__ = None
    if isinstance(item, C):
        fields = cls.__dataclass_fields__  # type: ignore[attr-defined]
        for f in item.fields:
            if ident(f.name) != f.name:
                fields[ident(f.name)].name = f.name


_CACHE: dict[Version, dict[Optional[str], types.ModuleType]] = {}
_COUNT = 0


def build(version: Version) -> dict[Optional[str], types.ModuleType]:
    "Creates a Python module for each namespace of the version."

    global _COUNT
    if version in _CACHE:
        return _CACHE[version]
    _COUNT += 1
    modules: dict[Optional[str], types.ModuleType] = {}
    for i, m in enumerate(version):
        name = f"mcu{_COUNT}_{i}"
        module = types.ModuleType(name)
        sys.modules[name] = module
        modules[m.ns] = module
    # modules may refer to each other; those that come later are visible to earlier ones when annotations are evaluated
    rest = list(version)
    ordered: list[M] = []
    while rest:
        names = {m.ns for m in rest}
        free = [m for m in rest if not (uses(m) - {m.ns}) & names]
        ordered.append(free[0] if free else rest[0])
        rest.remove(ordered[-1])
    for m in ordered:
        module = modules[m.ns]
        for other in version:
            if other.ns != m.ns:
                for item in other.items:
                    obj = modules[other.ns].__dict__.get(ident(item.name))
                    if obj is not None:
                        module.__dict__[ident(item.name)] = obj
        exec(compile(source_text(m, module.__dict__), f"<{module.__name__}>", "exec"), module.__dict__)
    for m in version:
        for other in version:
            if other.ns != m.ns:
                for item in other.items:
                    modules[m.ns].__dict__.setdefault(ident(item.name), modules[other.ns].__dict__[ident(item.name)])
    for m in version:
        for item in m.items:
            rename(modules[m.ns].__dict__[ident(item.name)], item)
    _CACHE[version] = modules
    return modules


def options(version: Version, mode: Mode) -> GeneratorOptions:
    modules = build(version)
    return GeneratorOptions(
        enum_mode=EnumMode(mode.enum) if mode.enum is not None else None,
        array_mode=ArrayMode(mode.array) if mode.array is not None else None,
        struct_mode=StructMode(mode.struct) if mode.struct is not None else None,
        auto_default=mode.auto,
        namespaces={modules[m.ns]: m.ns for m in version},
        foreign_constraints=mode.foreign,
        initialize_tables=mode.initialize,
        synchronization=MutatorOptions(
            allow_drop_enum=mode.drop_enum,
            allow_drop_struct=mode.drop_struct,
            allow_drop_table=mode.drop_table,
            allow_drop_namespace=mode.drop_namespace,
        ),
    )


# expected structure --------------------------------------------------------------------


class Expected:
    "Structure that the database must have for a version of the schema."

    def __init__(self, version: Version, dialect: str, mode: Mode) -> None:
        self.version = version
        self.dialect = dialect
        self.mode = mode
        self.items = {(m.ns, i.name): i for m in version for i in m.items}
        self.out: dict[str, Any] = {DEFAULT_SCHEMA[dialect]: {"tables": {}, "enums": {}, "structs": {}}}
        self.lookup: dict[tuple, list[str]] = {}  # (schema, table) of lookup tables: values
        self.owner: dict[tuple, Optional[str]] = {}  # (category, schema, name) of an object: namespace
        self.fill()

    def place(self, ns: Optional[str], name: str) -> tuple[str, str]:
        "Schema and name of an object in the database."

        if self.dialect in FLAT:
            return DEFAULT_SCHEMA[self.dialect], (f"{ns}__{name}" if ns else name)
        return ns or DEFAULT_SCHEMA[self.dialect], name

    def schema(self, name: str) -> dict:
        return self.out.setdefault(name, {"tables": {}, "enums": {}, "structs": {}})

    def typ(self, kind: Kind) -> tuple:
        d = self.dialect
        tag = kind[0]
        jsontype = {"postgresql": ("jsonb",), "mysql": ("json",), "mssql": ("varchar", None), "oracle": ("clob",)}[d]
        if tag == "range":
            kind, tag = ("int", 8), "int"
        if tag == "int":
            if d == "oracle":
                return ("number", None, None) if kind[1] > 0 else ("number", 38, 0)
            return ("int", max(2, abs(kind[1])))
        if tag == "bool":
            return ("int", 1) if d == "mysql" else ("bool",)
        if tag == "float":
            if d == "oracle":
                return ("real", 126 if kind[1] == 8 else 63)
            return ("float", 8 if d == "mysql" else kind[1])
        if tag == "str":
            if len(kind) > 1:
                return ("varchar", kind[1])
            return {"postgresql": ("text",), "mysql": ("mtext", "mediumtext"), "mssql": ("varchar", None), "oracle": ("clob",)}[d]
        if tag == "dec":
            p, s = (kind + (None, None))[1:3]
            if p is None:
                return {"postgresql": ("dec", None, None), "mysql": ("dec", 10, 0), "mssql": ("dec", 18, 0), "oracle": ("number", 38, 0)}[d]
            return ("number" if d == "oracle" else "dec", p, s)
        if tag == "datetime":
            n = kind[1] if len(kind) > 1 else None
            return {"postgresql": ("ts", n, False), "mysql": ("datetime", n or 0), "mssql": ("datetime", 7),
                    "oracle": ("ts", 6 if n is None else n, False)}[d]
        if tag == "bytes":
            if d == "postgresql":
                return ("bytea",)
            if len(kind) > 1:
                return ("raw" if d == "oracle" else "varbinary", kind[1])
            return {"mysql": ("mblob", "mediumblob"), "mssql": ("varbinary", None), "oracle": ("blob",)}[d]
        if tag == "date":
            return ("date",)
        if tag == "time":
            return {"postgresql": ("time", None, False), "mysql": ("time", 0), "mssql": ("time", 7), "oracle": ("interval",)}[d]
        if tag == "timedelta":
            return ("interval",)
        if tag == "uuid":
            return {"postgresql": ("uuid",), "mysql": ("binary", 16), "mssql": ("binary", 16), "oracle": ("raw", 16)}[d]
        if tag == "json":
            return jsontype
        if tag in ("ipv4", "ipv6"):
            n = 4 if tag == "ipv4" else 16
            return {"postgresql": ("inet",), "mysql": ("binary", n), "mssql": ("binary", n), "oracle": ("raw", n)}[d]
        if tag == "literal":
            return ("char", max(len(v) for v in kind[1]))
        if tag == "enum":
            mode = self.mode.enum_mode(d)
            item = self.items[kind[1:3]]
            if mode == "type":
                return ("enum",) + self.place(kind[1], kind[2])
            if mode == "inline":
                return ("menum", tuple(item.values))
            if mode == "relation":
                return self.typ(("int", 4))
            return self.typ(("str", 64))
        if tag == "xenum":
            return self.typ(("int", 4))
        if tag == "struct":
            if self.mode.struct_mode(d) == "type":
                return ("struct",) + self.place(kind[1], kind[2])
            return jsontype
        if tag == "ref":
            return self.typ(self.items[kind[1:3]].primary.kind)
        if tag in ("list", "set"):
            if self.mode.array_mode(d) == "json":
                return jsontype
            return ("array", self.typ(kind[1]))
        if tag == "union":
            kinds = {self.typ(k) for k in kind[1]}
            assert len(kinds) == 1
            return kinds.pop()
        raise ValueError(kind)

    def default(self, f: F) -> Any:
        if f.default is None:
            return None
        from .model import canon_value

        v = f.default
        if f.kind[0] == "enum":
            v = next(x for x in self.items[f.kind[1:3]].values if member_name(x) == v)
        if isinstance(v, bool) and self.dialect == "mysql":
            v = int(v)
        if isinstance(v, (datetime.datetime, datetime.time)) and v.tzinfo is not None:
            assert v.tzinfo is datetime.timezone.utc
            v = v.replace(tzinfo=None)  # columns have no time zone
        return canon_value(v)

    def is_link(self, f: F) -> bool:
        "True if the field is stored in a separate link table."

        if f.kind[0] not in ("list", "set"):
            return False
        return f.kind[1][0] == "ref" or self.mode.array_mode(self.dialect) == "relation"

    def add_table(self, ns: Optional[str], name: str, columns: list, constraints: list, comment: Optional[str]) -> None:
        schema, table = self.place(ns, name)
        assert table not in self.schema(schema)["tables"], f"duplicate table {table}"
        self.owner["tables", schema, table] = ns
        self.schema(schema)["tables"][table] = {
            "columns": sorted(columns, key=repr),
            "constraints": sorted(constraints, key=repr),
            "comment": comment if self.dialect in COMMENTS else None,
        }

    def fill(self) -> None:
        d = self.dialect
        mode = self.mode.enum_mode(d)
        entities = [(m.ns, i) for m in self.version for i in m.items if isinstance(i, C) and i.entity]
        reached: set[tuple] = set()

        def reach(kind: Kind) -> None:
            for k in leaves(kind):
                if k[0] in ("enum", "struct", "ref") and k[1:3] not in reached:
                    reached.add(k[1:3])
                    item = self.items[k[1:3]]
                    if isinstance(item, C):
                        for f in item.fields:
                            reach(f.kind)

        lookups: set[tuple] = set()
        for ns, c in entities:
            for f in c.fields:
                reach(f.kind)
                k = f.kind
                if k[0] == "xenum":
                    lookups.add(k[1:3])
                elif mode == "relation" and k[0] == "enum":
                    lookups.add(k[1:3])
                elif mode == "relation" and k[0] in ("list", "set") and k[1][0] == "enum":
                    lookups.add(k[1][1:3])
        if d == "postgresql":
            for ns, name in reached:
                item = self.items[ns, name]
                schema, _ = self.place(ns, name)
                if isinstance(item, E) and mode == "type":
                    self.owner["enums", schema, name] = ns
                    self.schema(schema)["enums"][name] = sorted(item.values, key=repr)
                elif isinstance(item, C) and not item.entity and self.mode.struct_mode(d) == "type":
                    self.owner["structs", schema, name] = ns
                    members = [(f.name, self.typ(f.kind), f.doc) for f in item.fields]
                    self.schema(schema)["structs"][name] = {"members": sorted(members, key=repr), "comment": item.doc}
        for ns, name in lookups:
            columns = [("id", self.typ(("int", 4)), True, None, True, None), ("value", self.typ(("str", 64)), True, None, False, None)]
            self.add_table(ns, name, columns, [("p", ("id",)), ("u", ("value",))], None)
            self.lookup[self.place(ns, name)] = list(self.items[ns, name].values)
        for ns, c in entities:
            columns, constraints = [], [("p", (c.primary.name,))]
            for f in c.fields:
                if self.is_link(f):
                    elem = f.kind[1]
                    target = self.items[elem[1:3]]
                    key = target.primary if isinstance(target, C) else F("id", ("int", 4))
                    left, right = f"{c.name}_{f.name}", f"{target.name}_{key.name}"
                    cols = [("uuid", self.typ(("uuid",)), True, None, False, None),
                            (left, self.typ(c.primary.kind), True, None, False, None),
                            (right, self.typ(key.kind), True, None, False, None)]
                    cons = [("p", ("uuid",)), ("f", (left,), self.place(ns, c.name) + ((c.primary.name,),)),
                            ("f", (right,), self.place(elem[1], elem[2]) + ((key.name,),))]
                    if f.kind[0] == "set":
                        cons.append(("u", (right,)))
                    self.add_table(ns, f"{left}_{target.name}", cols, cons, None)
                    continue
                columns.append((f.name, self.typ(f.kind), not f.opt, self.default(f), f.key == "identity",
                                f.doc if d in COMMENTS else None))
                k = f.kind
                if f.key == "unique":
                    constraints.append(("u", (f.name,)))
                if k[0] == "ref" and self.mode.foreign:
                    constraints.append(("f", (f.name,), self.place(k[1], k[2]) + ((self.items[k[1:3]].primary.name,),)))
                if k[0] == "xenum" or (k[0] == "enum" and mode == "relation"):
                    constraints.append(("f", (f.name,), self.place(k[1], k[2]) + (("id",),)))
                if k[0] == "range":
                    constraints.append(("c", ("range", f.name, k[1], k[2])))
                if k[0] == "enum" and mode == "check":
                    constraints.append(("c", ("in", f.name, tuple(self.items[k[1:3]].values))))
            self.add_table(ns, c.name, columns, constraints, c.doc)

    def structure(self) -> dict[str, Any]:
        return self.out


def normal_check(expr: Any) -> Any:
    "Recognises the two forms of check constraints the library promises; anything else is kept as is."

    if expr[0] == "and" and len(expr) == 3:
        a, b = expr[1], expr[2]
        if a[0] == b[0] == "cmp" and a[1] == ">=" and b[1] == "<=" and a[2] == b[2] and a[2][0] == "col":
            return ("range", a[2][2], number(a[3]), number(b[3]))
    if expr[0] == "in" and expr[1][0] == "col":
        return ("in", expr[1][2], tuple(x[1] for x in expr[2]))
    return expr


def number(e: Any) -> Any:
    if e[0] == "neg":
        return -e[1][1]
    return e[1]


def normal(structure: dict[str, Any]) -> dict[str, Any]:
    "Actual structure in the form of the expected one; empty non-default schemas are kept."

    for s in structure.values():
        for t in s["tables"].values():
            t["constraints"] = sorted(
                (("c", normal_check(k[1])) if k[0] == "c" else k for k in t["constraints"]), key=repr
            )
    return structure


def difference(a: Any, b: Any, path: str = "") -> list[str]:
    "Differences between actual and expected structure, as text."

    out: list[str] = []
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append(f"{path}/{k}: missing, expected {b[k]!r}")
            elif k not in b:
                out.append(f"{path}/{k}: unexpected {a[k]!r}")
            else:
                out.extend(difference(a[k], b[k], f"{path}/{k}"))
    elif isinstance(a, list) and isinstance(b, list):
        for x in a:
            if x not in b:
                out.append(f"{path}: unexpected {x!r}")
        for x in b:
            if x not in a:
                out.append(f"{path}: missing {x!r}")
        if not out and a != b:
            out.append(f"{path}: {a!r} != {b!r}")
    elif a != b:
        out.append(f"{path}: {a!r}, expected {b!r}")
    return out
