"""
Values of fields: boundary values of each kind, and how a database of each dialect represents a value. The representation
is decoded independently of the library.
"""

import base64
import datetime
import ipaddress
import json
import uuid
from decimal import Decimal
from typing import Any, Optional

from .universe import Kind, ident, member_name

UTC = datetime.timezone.utc
CEST = datetime.timezone(datetime.timedelta(hours=2))


def misfits(kind: Kind) -> list[Any]:
    "Values that a column of a kind need not hold, but must not alter."

    tag = kind[0]
    if tag == "int" and kind[1] > 0:
        n = 2 ** (8 * kind[1] - 1)
        return [n, -n - 1, 3 * n]
    if tag == "str" and len(kind) > 1:
        return ["y" * (kind[1] + 1), "é" * kind[1] + "x", " " * kind[1] + "y"]
    if tag == "enum":
        return ["not a member"] if kind[2] == "E" else [4]
    return []


def boundary(kind: Kind, dialect: str, items: dict, aware: bool = True) -> list[Any]:
    """
    Distinct values of a kind in their plain form: members of enumerations are strings, composite values are dictionaries.
    """

    tag = kind[0]
    if tag == "int":
        n = abs(kind[1])
        if kind[1] < 0:
            return [0, 1, 2 ** (8 * n - 1) - 1, 2 ** (8 * n - 1), 2 ** (8 * n) - 1]
        return [0, 1, -1, 2 ** (8 * n - 1) - 1, -(2 ** (8 * n - 1))]
    if tag == "range":
        return [kind[1], kind[1] + 1, kind[2]]
    if tag == "bool":
        return [False, True]
    if tag == "float":
        return [0.0, 1.5, -0.25, 2.0**30, 2.0**-20] if kind[1] == 4 else [0.0, 0.1, -1e300, 1e-300, 12345678.125]
    if tag == "str":
        out = ["x", "X", "it's", 'a "b"', "a\\b", "é", "日本", "  p ", "tab\tnl\n", "NULL", "%s", "$1", "'; --", "x" * 10]
        if len(kind) > 1:
            n = kind[1]
            limit = (lambda s: len(s.encode())) if dialect in ("mssql", "oracle") else len
            out = [s for s in out if limit(s) <= n] + (["y" * n] if n > 10 else [])
        elif dialect != "oracle":
            out.append("")
        if len(kind) == 1:
            out.append("z" * 5000)
        return out
    if tag == "dec":
        if len(kind) == 1:
            return [Decimal("0"), Decimal("1.5"), Decimal("-12345.678"), Decimal("100"), Decimal("1.25")]
        p, s = kind[1:3]
        top = Decimal(10 ** (p) - 1).scaleb(-s)
        return [Decimal(0), Decimal(1).scaleb(-s), top, -top] + ([Decimal(7)] if p > s else [])
    if tag == "datetime":
        n = kind[1] if len(kind) > 1 else 6
        micro = 123456 if n >= 6 else 0
        out = [datetime.datetime(1970, 1, 1), datetime.datetime(2024, 2, 29, 23, 59, 59), datetime.datetime(2024, 2, 29, 23, 59, 58),
               datetime.datetime(1999, 12, 31, 1, 2, 3, micro)]
        if micro:
            out.append(datetime.datetime(1999, 12, 31, 1, 2, 3, 0))
        if aware:
            out += [datetime.datetime(2001, 2, 3, 4, 5, 6, tzinfo=UTC), datetime.datetime(2001, 2, 3, 4, 5, 6, tzinfo=CEST)]
        return out
    if tag == "bytes":
        return [b"\x00", b"'", b'a\\"b', bytes(range(256))[: kind[1] if len(kind) > 1 else 256], b"\xff\xfe\x80", b"%s", b"x" * 10] + (
            [] if dialect == "oracle" else [b""]) + ([] if len(kind) > 1 else [b"z" * 5000])
    if tag == "date":
        return [datetime.date(1970, 1, 1), datetime.date(2024, 2, 29), datetime.date(1901, 1, 1), datetime.date(9999, 12, 31)]
    if tag == "time":
        n = kind[1] if len(kind) > 1 else 1
        fraction = [datetime.time(1, 2, 3, 500000)] if n else []
        fraction += [datetime.time(1, 2, 3, 123456)] if n >= 6 else []
        return [datetime.time(0, 0, 0), datetime.time(23, 59, 59), datetime.time(1, 2, 3), *fraction, datetime.time(4, 5, 6, tzinfo=UTC)]
    if tag == "timedelta":
        return [datetime.timedelta(0), datetime.timedelta(seconds=1), datetime.timedelta(days=3, hours=1)]
    if tag == "uuid":
        return [uuid.UUID(int=0), uuid.UUID(int=1), uuid.UUID("12345678-1234-5678-1234-567812345678"), uuid.UUID(int=2**128 - 1)]
    if tag == "ipv4":
        return [ipaddress.IPv4Address(x) for x in ("0.0.0.0", "192.168.0.1", "255.255.255.255")]
    if tag == "ipv6":
        return [ipaddress.IPv6Address(x) for x in ("::", "2001:db8::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff")]
    if tag == "literal":
        return list(kind[1])
    if tag == "enum":
        return list(items[kind[1:3]].values)
    if tag == "xenum":
        return list(items[kind[1:3]].values) + ["other", "it's"]
    if tag == "struct":
        fields = items[kind[1:3]].fields
        columns = [boundary(f.kind, dialect, items, aware) + ([None] if f.opt else []) for f in fields]
        return [{f.name: c[i % len(c)] for f, c in zip(fields, columns)} for i in range(max(map(len, columns)))]
    if tag == "list":
        inner = boundary(kind[1], dialect, items, aware)
        return [[], inner[:1], inner[:2], inner[:2][::-1], inner]
    if tag == "set":
        inner = boundary(kind[1], dialect, items, aware)
        return [set(), set(inner[:1]), set(inner)]
    if tag == "union":
        return [v for k in kind[1] for v in boundary(k, dialect, items, aware)]
    if tag == "ref":
        return boundary(items[kind[1:3]].primary.kind, dialect, items, aware)
    raise ValueError(kind)


def to_object(kind: Kind, v: Any, modules: dict, items: dict) -> Any:
    "Plain value as an attribute of an object: enumeration members and data-class instances."

    if v is None:
        return None
    tag = kind[0]
    if tag == "enum":
        return getattr(modules[kind[1]].__dict__[ident(kind[2])], member_name(v))
    if tag == "xenum":
        return next((m for m in modules[kind[1]].__dict__[ident(kind[2])] if m.value == v), v)
    if tag == "struct":
        fields = {f.name: f for f in items[kind[1:3]].fields}
        return modules[kind[1]].__dict__[ident(kind[2])](**{k: to_object(fields[k].kind, x, modules, items) for k, x in v.items()})
    if tag == "list":
        return [to_object(kind[1], x, modules, items) for x in v]
    if tag == "set":
        return set(to_object(kind[1], x, modules, items) for x in v)
    return v


def canon(kind: Kind, v: Any, items: dict) -> Any:
    "Canonical form of a plain value, in which equal values are equal."

    if v is None:
        return None
    tag = kind[0]
    if tag == "opaque":
        return opaque(v)
    if tag == "datetime" and v.tzinfo is not None:
        return v.astimezone(UTC).replace(tzinfo=None)
    if tag == "time" and v.tzinfo is not None:
        return v.replace(tzinfo=None)
    if tag in ("dec", "int", "range"):
        return Decimal(v).normalize()
    if tag in ("ipv4", "ipv6"):
        return str(v)
    if tag == "union":
        return str(v) if kind[1][0][0] in ("ipv4", "ipv6") else canon(kind[1][0], v, items)
    if tag in ("enum", "xenum"):
        return str(v)  # members may have integer values
    if tag == "struct":
        fields = items[kind[1:3]].fields
        return tuple((f.name, canon(f.kind, v.get(f.name), items)) for f in fields)
    if tag == "list":
        return tuple(canon(kind[1], x, items) for x in v)
    if tag == "set":
        return tuple(sorted((canon(kind[1], x, items) for x in v), key=repr))
    if tag == "ref":
        return canon(items[kind[1:3]].primary.kind, v, items)
    return v


class Undecodable(Exception):
    pass


def opaque(v: Any) -> Any:
    "A value of unknown type; numbers are in the form that `canon` has them."

    return Decimal(v).normalize() if isinstance(v, int) else v


def decode(kind: Kind, v: Any, items: dict, dialect: str, lookup: Optional[dict] = None) -> Any:
    "Canonical form of the value that a column of a kind holds."

    if v is None:
        return None
    tag = kind[0]
    try:
        if tag == "opaque":
            return opaque(v)
        if tag in ("int", "range", "dec"):
            if isinstance(v, (bool, str, bytes, float)):
                raise Undecodable(repr(v))
            return Decimal(v).normalize()
        if tag == "bool":
            if v in (0, 1):
                return bool(v)
            raise Undecodable(repr(v))
        if tag == "float":
            return float(v)
        if tag in ("str", "literal"):
            if not isinstance(v, str):
                raise Undecodable(repr(v))
            return v.rstrip(" ") if tag == "literal" else v
        if tag == "datetime":
            return v.astimezone(UTC).replace(tzinfo=None) if v.tzinfo is not None else v
        if tag == "bytes":
            if not isinstance(v, (bytes, bytearray)):
                raise Undecodable(repr(v))
            return bytes(v)
        if tag == "date":
            return v.date() if isinstance(v, datetime.datetime) else v
        if tag == "time":
            if isinstance(v, datetime.timedelta):
                return (datetime.datetime.min + v).time()
            return v.replace(tzinfo=None)
        if tag == "timedelta":
            return v
        if tag == "uuid":
            return uuid.UUID(bytes=v) if isinstance(v, bytes) else v
        if tag in ("ipv4", "ipv6"):
            if isinstance(v, bytes):
                if len(v) != (4 if tag == "ipv4" else 16):
                    raise Undecodable(repr(v))
                return str(ipaddress.ip_address(v))
            return str(getattr(v, "ip", v))
        if tag == "union":
            if kind[1][0][0] in ("ipv4", "ipv6"):
                return str(ipaddress.ip_address(v)) if isinstance(v, bytes) else str(getattr(v, "ip", v))
            return decode(kind[1][-1], v, items, dialect, lookup)
        if tag in ("enum", "xenum"):
            if lookup is not None:
                if v not in lookup:
                    raise Undecodable(f"unknown identifier {v!r}")
                return str(lookup[v])
            if not isinstance(v, (str, type(items[kind[1:3]].values[0]))):
                raise Undecodable(repr(v))
            return str(v)
        if tag == "struct":
            fields = items[kind[1:3]].fields
            if isinstance(v, str):
                return from_json(kind, json.loads(v), items)
            return tuple((f.name, decode(f.kind, x, items, dialect)) for f, x in zip(fields, v))
        if tag in ("list", "set"):
            if isinstance(v, str):
                out = from_json(kind, json.loads(v), items)
            else:
                out = tuple(decode(kind[1], x, items, dialect, lookup) for x in v)
            return tuple(sorted(out, key=repr)) if tag == "set" else out
        if tag == "ref":
            return decode(items[kind[1:3]].primary.kind, v, items, dialect)
    except Undecodable:
        raise
    except Exception as e:
        raise Undecodable(f"{v!r}: {e}") from None
    raise ValueError(kind)


def from_json(kind: Kind, v: Any, items: dict) -> Any:
    if v is None:
        return None
    tag = kind[0]
    if tag in ("int", "range", "dec"):
        if isinstance(v, (bool, float)) and tag != "dec":
            raise Undecodable(repr(v))
        return Decimal(str(v)).normalize()
    if tag == "float":
        return float(v)
    if tag in ("enum", "xenum"):
        if not isinstance(v, (str, type(items[kind[1:3]].values[0]))):
            raise Undecodable(repr(v))
        return str(v)
    if tag in ("str", "literal"):
        if not isinstance(v, str):
            raise Undecodable(repr(v))
        return v
    if tag == "bool":
        if not isinstance(v, bool):
            raise Undecodable(repr(v))
        return v
    if tag == "datetime":
        d = datetime.datetime.fromisoformat(v)
        return d.astimezone(UTC).replace(tzinfo=None) if d.tzinfo is not None else d
    if tag == "date":
        return datetime.date.fromisoformat(v)
    if tag == "time":
        return datetime.time.fromisoformat(v).replace(tzinfo=None)
    if tag == "bytes":
        return base64.b64decode(v, validate=True)
    if tag == "uuid":
        return uuid.UUID(v)
    if tag in ("ipv4", "ipv6"):
        return str({"ipv4": ipaddress.IPv4Address, "ipv6": ipaddress.IPv6Address}[tag](v))
    if tag == "struct":
        fields = items[kind[1:3]].fields
        unknown = set(v) - {f.name for f in fields}
        if unknown:
            raise Undecodable(repr(v))
        return tuple((f.name, from_json(f.kind, v.get(f.name), items)) for f in fields)
    if tag in ("list", "set"):
        out = tuple(from_json(kind[1], x, items) for x in v)
        return tuple(sorted(out, key=repr)) if tag == "set" else out
    raise ValueError(kind)
