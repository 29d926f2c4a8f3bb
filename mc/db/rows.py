"Fills the tables of a model database with rows that satisfy all constraints, without the library."

import datetime
import decimal
import ipaddress
import uuid
from typing import Any, Optional

from . import sqltypes as T
from .model import Db, Tab, canon_value
from .universe import normal_check


def sample(typ: tuple, i: int, db: Db) -> Any:
    "The i-th distinct value of a type (as far as the type has that many)."

    kind = typ[0]
    if kind == "int":
        return i + 1
    if kind == "bool":
        return i % 2 == 0
    if kind in ("float", "real"):
        return i + 0.5
    if kind in ("dec", "number"):
        return decimal.Decimal(i + 1) if typ[2] in (None, 0) else decimal.Decimal(i * 10 + 5) / 10
    if kind in ("text", "varchar", "mtext", "clob"):
        return f"v'{i}\\"
    if kind == "char":
        return f"{i}"
    if kind in ("ts", "datetime"):
        return datetime.datetime(2024, 2, 29, 12, 30, i, tzinfo=datetime.timezone.utc if kind == "ts" and len(typ) > 2 and typ[2] else None)
    if kind == "date":
        return datetime.date(2024, 2, 1 + i)
    if kind == "time":
        return datetime.time(1, 2, i)
    if kind == "interval":
        return datetime.timedelta(hours=i)
    if kind == "uuid":
        return uuid.UUID(int=i + 1)
    if kind in T.BYTES:
        return bytes([i + 1]) * (typ[1] if len(typ) > 1 and isinstance(typ[1], int) else 2)
    if kind in ("json", "jsonb"):
        return '{"k": %d}' % i
    if kind == "inet":
        return ipaddress.ip_address(i + 1)
    if kind == "menum":
        return typ[1][i % len(typ[1])]
    if kind == "enum":
        values = db.schemas[typ[1]].enums[typ[2]].values
        return values[i % len(values)]
    if kind == "array":
        return [sample(typ[1], i, db), sample(typ[1], i + 1, db)]
    if kind == "struct":
        return tuple(sample(m.typ, i, db) for m in db.schemas[typ[1]].structs[typ[2]].members)
    raise ValueError(typ)


def populate(db: Db, n: int = 3, nulls: bool = True, lookup: Optional[dict[tuple[str, str], list[str]]] = None,
             only: Optional[set[tuple[str, str]]] = None) -> int:
    """
    Adds n rows to each table that has none; returns the number of rows added.

    :param nulls: The last row of each table has no values for columns that permit NULL.
    :param lookup: Values of lookup tables, in place of samples.
    :param only: Tables (schema and name) to fill, less those that refer to tables which stay empty.
    """

    lookup = lookup or {}

    def size(t: Tab) -> int:
        values = lookup.get((t.schema, t.name))
        return n if values is None else len(values)

    def cell(t: Tab, name: str, i: int) -> Any:
        for con in t.cons.values():
            if con.kind == "f" and name in con.cols:
                target = db.schemas[con.ref[0]].tables[con.ref[1]]
                return cell(target, con.ref[2][con.cols.index(name)], i % size(target))
        for con in t.cons.values():
            if con.kind == "c":
                expr = normal_check(con.expr)
                if expr[0] == "range" and expr[1] == name:
                    return min(expr[2] + i, expr[3])
                if expr[0] == "in" and expr[1] == name:
                    return expr[2][i % len(expr[2])]
        values = lookup.get((t.schema, t.name))
        if values is not None and name == "value":
            return values[i]
        return sample(t.col(name).typ, i, db)

    tables = [t for t in db.tables() if not t.rows and (only is None or (t.schema, t.name) in only)]
    while True:
        filled = {(t.schema, t.name) for t in db.tables() if t.rows or t in tables}
        rest = [t for t in tables if all(con.ref[:2] in filled for con in t.cons.values() if con.kind == "f")]
        if len(rest) == len(tables):
            break
        tables = rest
    count = 0
    for t in tables:
        for i in range(size(t)):
            row = {}
            for c in t.cols:
                empty = nulls and i == n - 1 and not c.not_null and (t.schema, t.name) not in lookup
                row[c.name] = None if empty else T.assign(c.typ, cell(t, c.name, i), db, "param" if c.typ[0] != "struct" else "literal")
            t.rows.append(row)
            count += 1
        t.next_id = max(t.next_id, size(t) + 1)
    for t in tables:
        db.check_rows(t)
    return count


def identify(t: Tab, row: dict[str, Any]) -> tuple:
    return tuple(row[c] for c in t.primary.cols) if t.primary is not None else tuple(sorted(row.items(), key=repr))
