"""
P12: tab-separated exchange is lossless.

Every record over small per-type value alphabets is written with the real writer and read back with the real readers,
through every two-way split of the byte stream; plus operation sequences of writes, partial reads and reorderings.
"""

import asyncio
import dataclasses
import datetime
import decimal
import enum
import io
import ipaddress
import itertools
import math
import typing
import uuid
from dataclasses import dataclass
from typing import Annotated, Any, Optional, Union

from pysqlsync.data.exchange import AsyncTextReader, TextReader, TextWriter, fields_to_types
from pysqlsync.model.key_types import PrimaryKey, Unique

from ..core import Run

LEVEL = "model_checking"
RULE = (
    "every value of the alphabet of each field type, alone and in every pair of neighbouring columns; every string of "
    "<=3 (thorough <=4) characters over {TAB, LF, CR, backslash, N, n, t, NUL, e-acute, quote} as the only, first and "
    "last column; every non-empty selection and order of 3-4 columns; every two-way split of the byte stream read; "
    "non-trivial = NULL, empty or escaped content, or a selection or a split"
)
ASSUMPTIONS = [
    "the encoding of single values is that of the library tsv2py, whose time values are UTC without time zone",
]


class Color(enum.Enum):
    red = "red"
    odd = "a\tb\\n"


@dataclass
class Ref:
    id: PrimaryKey[int]
    name: str


U1 = uuid.UUID("00000000-0000-0000-0000-000000000000")
U2 = uuid.UUID("12345678-9abc-4def-8123-456789abcdef")

TYPES: dict[str, tuple[Any, list[Any]]] = {
    "bool": (bool, [True, False]),
    "int": (int, [0, 1, -1, 2**31, -(2**63), 2**63 - 1, 10]),
    "float": (float, [0.0, -0.0, 1.5, -1e300, 5e-324, 0.1, math.inf, -math.inf]),
    "str": (str, ["", "a", "\\", "\t", "\n", "\r\n", "\\N", "\\n", "N", "null", "\u00e9\U0001f600", "\x00", "\x0b\x0c\x08", " ", "a b "]),
    "bytes": (bytes, [b"", b"\x00", b"\n\t\r\\", b"\\N", bytes(range(256))]),
    "datetime": (datetime.datetime, [datetime.datetime(1989, 10, 23, 1, 2, 3), datetime.datetime(2024, 2, 29, 23, 59, 59, 123456), datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31, 23, 59, 59)]),
    "date": (datetime.date, [datetime.date(1, 1, 1), datetime.date(2024, 2, 29), datetime.date(9999, 12, 31)]),
    "time": (datetime.time, [datetime.time(0, 0), datetime.time(23, 59, 59), datetime.time(1, 2, 3, 456)]),
    "decimal": (decimal.Decimal, [decimal.Decimal("0"), decimal.Decimal("-1.50"), decimal.Decimal("12345678901234567890.123456789"), decimal.Decimal("1E+10")]),
    "uuid": (uuid.UUID, [U1, U2]),
    "ipv4": (ipaddress.IPv4Address, [ipaddress.IPv4Address("0.0.0.0"), ipaddress.IPv4Address("192.0.2.255")]),
    "ipv6": (ipaddress.IPv6Address, [ipaddress.IPv6Address("::"), ipaddress.IPv6Address("2001:db8::1")]),
    "ip": (Union[ipaddress.IPv4Address, ipaddress.IPv6Address], [ipaddress.IPv4Address("10.0.0.1"), ipaddress.IPv6Address("::1")]),
    "enum": (Color, [Color.red, Color.odd]),
    "literal": (typing.Literal["x", "y\t"], ["x", "y\t"]),
    "annotated": (Annotated[str, "meta"], ["", "v"]),
    "unique": (Unique[int], [1, 2]),
    "list": (list[str], [[], ["a", "\t\n\\", ""], ["\u00e9"]]),
    "dict": (dict[str, int], [{}, {"a\n": 1, "": 2}]),
    "ref": (Ref, [7, 8]),
    "self": ("self", [1]),
}
# NUL cannot be told apart... every type is also tried as optional with None


def make(fields: list[tuple[str, Any]]) -> type:
    cls = dataclasses.make_dataclass("Rec", fields)
    cls.__module__ = __name__
    return cls


def plain(value: Any) -> Any:
    return value.value if isinstance(value, enum.Enum) else value


def same(a: Any, b: Any) -> bool:
    if isinstance(a, datetime.datetime) and isinstance(b, datetime.datetime):
        a, b = a.replace(tzinfo=None), b.replace(tzinfo=None)
    elif isinstance(a, datetime.time) and isinstance(b, datetime.time):
        a, b = a.replace(tzinfo=None), b.replace(tzinfo=None)
    if type(a) is not type(b):
        return False
    if isinstance(a, decimal.Decimal):
        return a.as_tuple() == b.as_tuple()
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


class Chunked(io.RawIOBase):
    "A raw stream that returns data split at given positions."

    def __init__(self, data: bytes, splits: tuple[int, ...]) -> None:
        bounds = [0, *splits, len(data)]
        self.parts = [data[a:b] for a, b in zip(bounds, bounds[1:]) if a < b]

    def readable(self) -> bool:
        return True

    def readinto(self, buffer) -> int:
        if not self.parts:
            return 0
        part = self.parts.pop(0)
        n = min(len(part), len(buffer))
        buffer[:n] = part[:n]
        if n < len(part):
            self.parts.insert(0, part[n:])
        return n


def write(cls: type, batches: list[list[tuple]], mapping=None) -> bytes:
    names = [f.name for f in dataclasses.fields(cls)]
    stream = io.BytesIO()
    writer: TextWriter = TextWriter(stream, cls, mapping) if mapping is not None else TextWriter(stream, cls)
    for rows in batches:
        writer.write_objects([cls(**dict(zip(names, row))) for row in rows])
    return stream.getvalue()


def read_sync(data: bytes, types: dict, how: str, splits: tuple[int, ...] = ()):
    stream: Any = io.BytesIO(data) if not splits else io.BufferedReader(Chunked(data, splits), 16)
    reader = TextReader(stream, types)
    if how == "records":
        rows = list(reader.records())
    elif how == "mixed":
        rows = []
        for row in reader.records():
            rows.append(row)
            break
        rows.extend(reader.read_records())
    else:
        rows = reader.read_records()
    return reader.columns, reader.field_types, rows


def read_async(data: bytes, types: dict, how: str, splits: tuple[int, ...] = ()):
    async def main():
        stream = asyncio.StreamReader()
        reader = AsyncTextReader(stream, types)

        async def consume():
            await reader.read_header()
            if how == "records":
                return [row async for row in reader.records()]
            return await reader.read_records()

        task = asyncio.create_task(consume())
        bounds = [0, *splits, len(data)]
        for a, b in zip(bounds, bounds[1:]):
            if a < b:
                stream.feed_data(data[a:b])
                for _ in range(3):
                    await asyncio.sleep(0)
        stream.feed_eof()
        rows = await task
        return reader.columns, reader.field_types, rows

    return asyncio.run(main())


def compare(run: Run, sig: str, got, columns, rows, replay, types=None) -> bool:
    run.transition()
    if types is not None and tuple(got[1]) != tuple(types[c] for c in columns):
        run.violation(f"{sig}/types", f"types of fields {got[1]}, expected {[types[c] for c in columns]}", replay)
        return False
    if tuple(got[0]) != tuple(columns):
        run.violation(f"{sig}/columns", f"columns {got[0]}, expected {columns}", replay)
        return False
    result = got[2]
    if len(result) != len(rows):
        run.violation(f"{sig}/count", f"{len(result)} records, expected {len(rows)}: {result!r}", replay)
        return False
    for g, e in zip(result, rows):
        if len(g) != len(e) or not all(same(x, y) for x, y in zip(g, e)):
            run.violation(f"{sig}/value", f"read {g!r}, expected {e!r}", replay)
            return False
    run.trace()
    return True


def roundtrip(run: Run, sig: str, cls: type, rows: list[tuple], mapping=None, splits="none") -> None:
    names = [f.name for f in dataclasses.fields(cls)]
    selected = list(mapping) if mapping is not None else names
    columns = [mapping[n] for n in selected] if mapping is not None else names
    expect = [tuple(plain(row[names.index(n)]) for n in selected) for row in rows]
    replay = {"fields": {f.name: repr(f.type) for f in dataclasses.fields(cls)}, "rows": repr(rows), "mapping": mapping}
    run.case((sig, repr(rows), repr(mapping)), sig.split("/")[0])
    run.state((sig, repr(rows), repr(mapping)))
    with run.guard(sig, replay):
        data = write(cls, [rows], mapping)
        if rows and write(cls, [rows[:1], [], rows[1:]], mapping) != data:
            run.violation(f"{sig}/batches", "result depends on how records are grouped into calls", replay)
        full = dict(mapping) if mapping is not None else None
        if full is not None:
            full.update({n: n for n in names if n not in full})
        types = fields_to_types(cls, full) if full is not None else fields_to_types(cls)
        if full is not None and full != mapping:
            # what the reader is told about fields that are left out is of no effect
            for how in ("read_records", "records"):
                compare(run, sig, read_sync(data, fields_to_types(cls, mapping), how), columns, expect, {**replay, "how": how})
        for how in ("read_records", "records", "mixed"):
            compare(run, sig, read_sync(data, types, how), columns, expect, {**replay, "how": how}, types)
        if splits == "none":
            return
        points: typing.Iterable[tuple[int, ...]]
        if splits == "all":
            points = [(i,) for i in range(1, len(data))] + [tuple(range(1, len(data)))]
        else:
            points = [tuple(range(1, len(data)))]
        for point in points:
            for how in ("read_records", "records"):
                got = read_sync(data, types, how, point)
                if not compare(run, sig + "/split", got, columns, expect, {**replay, "split": point, "how": how}, types):
                    return
                got = read_async(data, types, how, point)
                if not compare(run, sig + "/async", got, columns, expect, {**replay, "split": point, "how": how}, types):
                    return


def explore(run: Run) -> None:
    # each type alone, optional and not; each value alone, and all at once
    for name, (typ, values) in TYPES.items():
        if typ == "self":
            continue
        for optional in (False, True):
            cls = make([("x", Optional[typ] if optional else typ)])
            menu = list(values) + ([None] if optional else [])
            for v in menu:
                roundtrip(run, f"single/{name}", cls, [(v,)], splits="bytes")
            roundtrip(run, f"all/{name}", cls, [(v,) for v in menu], splits="bytes")
            for a, b in itertools.product(menu, repeat=2):
                roundtrip(run, f"two/{name}", cls, [(a,), (b,)])
            pk = make([("id", PrimaryKey[int]), ("x", Optional[typ] if optional else typ), ("y", Optional[typ] if optional else typ)])
            for a, b in itertools.product(menu, repeat=2):
                roundtrip(run, f"neighbours/{name}", pk, [(1, a, b), (2, b, a)])

    # pairs of types as neighbours, all values
    for (n1, (t1, v1)), (n2, (t2, v2)) in itertools.product(TYPES.items(), repeat=2):
        if "self" in (n1, n2):
            continue
        cls = make([("x", Optional[t1]), ("y", Optional[t2])])
        rows = [(a, b) for a in [*v1, None] for b in [*v2, None]]
        roundtrip(run, f"pair/{n1}-{n2}", cls, rows)

    # strings over an alphabet of significant characters
    alphabet = ["\t", "\n", "\r", "\\", "N", "n", "t", "\x00", "\u00e9", '"']
    length = 4 if run.thorough else 3
    only, first, last = make([("s", str)]), make([("s", str), ("i", int)]), make([("i", int), ("s", Optional[str])])
    strings = ["".join(t) for n in range(length + 1) for t in itertools.product(alphabet, repeat=n)]
    for s in strings:
        roundtrip(run, "string/only", only, [(s,)])
        roundtrip(run, "string/context", only, [("a",), (s,), ("b",)])
        roundtrip(run, "string/first", first, [(s, 1), ("x", 2)])
        roundtrip(run, "string/last", last, [(1, s), (2, None), (3, s)])
    for s in strings[: 1111]:
        roundtrip(run, "string/split", last, [(1, s), (2, None)], splits="bytes")
    for n in (1, 2, 3):
        for rows in itertools.product(["", "a", "\n", "\\"], repeat=n):
            roundtrip(run, "string/rows", only, [(s,) for s in rows], splits="all")

    # header names, selections and orders
    cls = make([("id", PrimaryKey[int]), ("code", Optional[str]), ("when", datetime.datetime), ("flag", bool)])
    rows = [(1, "a\tb", datetime.datetime(2020, 1, 2), True), (2, None, datetime.datetime(2021, 1, 2), False), (3, "", datetime.datetime(2022, 1, 2), True)]
    fields = ["id", "code", "when", "flag"]
    for n in range(1, 5):
        for order in itertools.permutations(fields, n):
            for rename in (lambda x: x, lambda x: "meta." + x, lambda x: x + " \u00e9", lambda x: {"id": "code", "code": "id"}.get(x, x)):
                mapping = {f: rename(f) for f in order}
                if n < 4 and rename("id") == "code" and len(set(order) & {"id", "code"}) == 1:
                    continue  # the new name collides with that of a field that is left out
                roundtrip(run, "selection", cls, rows, mapping, splits="all" if n <= 2 and run.thorough else "bytes")
                roundtrip(run, "selection/empty", cls, [], mapping)
    # column names with significant characters, at either end of the header and next to a separator
    signs = [" ", "  ", "\r", "\v", "\f", "\x00", "\x1c", "\u00a0", "\u2028", "\ufeff", "\\", "\\N", "\\t", '"', "'", "#", ",", ".", "A", "\u0130"]
    for sign in signs:
        for n in range(1, 5):
            for at in range(n):
                for rename in (lambda x: x + sign, lambda x: sign + x, lambda x: sign):
                    mapping = {f: rename(f) if i == at else f for i, f in enumerate(fields[:n])}
                    roundtrip(run, "header", cls, rows, mapping, splits="bytes")
                    roundtrip(run, "header/empty", cls, [], mapping, splits="bytes")
        for a, b in (("", sign), (sign, ""), (sign, sign * 2)):
            roundtrip(run, "header/pair", cls, rows, {"id": "x" + a, "code": "x" + b}, splits="bytes")
            roundtrip(run, "header/pair", cls, rows, {"id": a + "x", "code": b + "x"}, splits="bytes")
    # fields are matched by name whatever order the reader is told about them
    data = write(cls, [rows], {f: f for f in fields})
    base = fields_to_types(cls)
    for order in itertools.permutations(fields):
        run.case(("types-order", order), "types-order")
        types = {f: base[f] for f in order}
        with run.guard("types-order", order):
            compare(run, "types-order", read_sync(data, types, "records"), fields, rows, order)

    # a long file
    cls = make([("id", PrimaryKey[int]), ("s", Optional[str])])
    count = 20000 if run.thorough else 3000
    rows = [(i, [None, "", "x" * (i % 50), "\\\n"][i % 4]) for i in range(count)]
    roundtrip(run, "long", cls, rows)
    roundtrip(run, "long-line", cls, [(1, "x" * 200000), (2, "\n" * 70000), (3, None)])
    run.bounds = {"string_length": length, "columns": 4, "rows": count}
