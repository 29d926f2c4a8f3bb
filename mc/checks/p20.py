"""
P20: field values are stored in the representation of their column.

Every boundary value of every kind of field, in every role and through every operation that adds or changes records, is
written by the real library to a model of each database server, and read back by a decoder that is independent of the
library.
"""

import itertools
from typing import Any, Iterator, Optional

from pysqlsync.data.exchange import fields_to_types
from pysqlsync.factory import get_dialect

from ..core import Run, parallel
from ..db import drivers as D
from ..db import values as V
from ..db import world as W
from ..db.universe import DEFAULT_SCHEMA, FLAT, C, E, F, Kind, M, Mode

LEVEL = "model_checking"
RULE = (
    "dialect x mode x kind of field x role x state of the generator (created, synchronised, synchronised again) x operation, "
    "for all boundary values of the kind; non-trivial = a distinct (dialect, mode, field, state, operation, value) stored"
)
ASSUMPTIONS = [
    "the database is a model of the server and the driver of each dialect, which converts or rejects each value by type",
    "an empty string is not a value of its own with Oracle; a time has no offset other than UTC",
]

E1 = E("E", ("a", "b", "it's", 'x "y"', "NULL", " s "))
N1 = E("N", (1, 20, -3))
X1 = E("X", ("unspecified",))
S1 = C("S", (F("x", ("int", 8)), F("y", ("str",), opt=True)))
S2 = C("P", (F("s", ("struct", "app", "S")), F("n", ("int", 4))))
Q1 = C("Q", (F("id", ("uuid",), key="primary"), F("n", ("int", 8))))
Q2 = C("R", (F("id", ("str", 20), key="primary"), F("n", ("int", 8))))
Q3 = C("I", (F("id", ("ipv4",), key="primary"), F("n", ("int", 8))))

# kinds of members of composite types and of elements of lists
MEMBERS: list[Kind] = [("int", 2), ("bool",), ("float", 8), ("str", 20), ("dec", 10, 2), ("bytes",), ("datetime",), ("datetime", 6), ("date",),
                       ("time",), ("uuid",), ("ipv4",), ("ipv6",), ("literal", ("one", "other")), ("enum", "app", "E"), ("enum", "app", "N")]
HOLDERS = {k: C(f"M{i}", (F("x", k), F("n", ("int", 8)), F("y", k, opt=True))) for i, k in enumerate(MEMBERS)}
ITEMS = {("app", i.name): i for i in (Q1, Q2, Q3, E1, N1, X1, S1, S2, *HOLDERS.values())}
UNION_IP = ("union", (("ipv4",), ("ipv6",)))
UNION_STR = ("union", (("literal", ("unknown",)), ("str", 40)))
ENUM = ("enum", "app", "E")
INTS = ("enum", "app", "N")
XENUM = ("xenum", "app", "X")
STRUCT = ("struct", "app", "S")
INTS_HOLDER = ("struct", "app", HOLDERS[INTS].name)


def kinds(dialect: str) -> list[Kind]:
    out: list[Kind] = [("int", n) for n in (1, 2, 4, 8)]
    out += [("range", -5, 5), ("bool",), ("float", 4), ("float", 8), ("str",), ("str", 20), ("dec",), ("dec", 10, 2), ("dec", 5, 5), ("bytes",),
            ("datetime",), ("datetime", 6), ("date",), ("time",), ("uuid",), ("ipv4",), ("ipv6",), UNION_IP, ("literal", ("one", "other")),
            UNION_STR, ENUM, INTS, XENUM, STRUCT, ("struct", "app", "P")]
    out += [("ref", "app", n) for n in "QRI"]
    out += [("list", k) for k in (("int", 8), ("str",), ENUM, INTS, STRUCT)]
    out += [("set", k) for k in (("int", 8), ("str",), ENUM)]
    out += [("struct", "app", h.name) for h in HOLDERS.values()]
    out += [("list", k) for k in MEMBERS if k not in (ENUM, INTS) and k[0] != "literal"]  # no list of a Literal
    out += [("list", ("struct", "app", HOLDERS[k].name)) for k in (("datetime",), ("bytes",), ENUM)]
    return out


def modes(dialect: str, kind: Kind) -> list[Mode]:
    if kind[0] == "ref":
        return [Mode(foreign=False)]
    inner = kind[1] if kind[0] in ("list", "set") else kind
    out = [Mode()]
    if inner[0] == "enum":
        enums = {"postgresql": ["type", "check", "relation"], "mysql": ["inline", "check", "relation"]}.get(dialect, ["check", "relation"])
        out = [Mode(enum=e) for e in enums]
    if kind[0] in ("list", "set") and dialect == "postgresql":
        out = [m.replace(array=a) for m in out for a in ("array", "json")]
    if inner[0] == "xenum" and dialect in ("postgresql", "mysql"):
        out.append(Mode(enum="relation"))
    return out


def roles(kind: Kind, dialect: str) -> list[tuple]:
    "Optional, key."

    out: list[tuple] = [(False, None), (True, None)]
    if kind[0] in ("int", "uuid", "date", "datetime", "ipv4", "enum") or kind == ("str", 20):
        if kind[0] != "enum":
            out.append((False, "primary"))
        out.append((False, "unique"))
    return out


def cases(thorough: bool) -> Iterator[tuple]:
    for d in D.DIALECTS:
        for kind in kinds(d):
            for mode in modes(d, kind):
                for opt, key in roles(kind, d):
                    yield d, kind, mode, opt, key


def name_of(kind: Kind) -> str:
    return "-".join(name_of(k) if isinstance(k, tuple) else str(k) for k in kind if k not in ("app",)).replace(" ", "")


def explore(run: Run) -> None:
    D.install()
    items = list(cases(run.thorough))
    run.bounds = {"fields": len(items), "operations": len(OPERATIONS), "states of the generator": len(STATES)}
    parallel(run, work, items)


STATES = ("created", "synchronised", "again")
OPERATIONS = ("insert_data", "upsert_data", "upsert_data twice", "insert_rows", "upsert_rows", "upsert_rows twice", "typed rows", "batch",
              "batch rows", "replace", "replace rows")


def work(run: Run, item: tuple) -> None:
    dialect, kind, mode, opt, key = item
    f = F("v", kind, opt=opt, key=key)
    if key == "primary":
        table = C("T", (f, F("n", ("int", 8))))
    else:
        table = W.table("T", f)
    used: list = []

    def need(k: Kind) -> None:
        if k[0] in ("enum", "xenum", "struct", "ref"):
            i = ITEMS[k[1:3]]
            if isinstance(i, C):
                for g in i.fields:
                    need(g.kind)
            if i not in used:
                used.append(i)
        elif k[0] in ("list", "set"):
            need(k[1])

    need(kind)
    version = (M("app", (*used, table)),)
    values = V.boundary(kind, dialect, ITEMS)
    label = f"{dialect}/{name_of(kind)}" + (f"/{mode.enum}" if mode.enum else "") + (f"/{mode.array}" if mode.array else "")
    if opt:
        values.append(None)
    for state in STATES:
        check(run, dialect, kind, mode, version, f, values, label, state)


def class_of(kind: Kind, v: Any) -> str:
    if v is None:
        return "none"
    if kind[0] == "datetime" and v.tzinfo is not None:
        return "aware"
    if kind[0] in ("datetime", "time") and v.microsecond:
        return "fraction"
    if kind == ("dec",) and v != int(v):
        return "fraction"
    if kind == UNION_IP:
        return f"ipv{v.version}"
    return "value"


def check(run: Run, dialect: str, kind: Kind, mode: Mode, version: tuple, f: F, values: list, label: str, state: str) -> None:
    session = W.Session(dialect)
    schema, name = (DEFAULT_SCHEMA[dialect], "app__T") if dialect in FLAT else ("app", "T")
    server = session.server
    if state == "again":
        session.sync(version, mode)
        if any(con.kind == "c" for s in server.db.schemas.values() for t in s.tables.values() for con in t.cons.values()):
            return  # restrictions on values are not discovered, and are created for a second time (a finding of P02)
    if state == "created":
        session.create(version, mode)
    primary = f.key == "primary"

    def stored() -> list[tuple]:
        "Key and decoded value of each row; raises an error if a value is not in the representation of its column."

        db = server.committed()
        t = db.schemas[schema].tables[name]
        lookup = None
        for con in t.cons.values():
            if con.kind == "f" and con.cols == ("v",):
                target = db.schemas[con.ref[0]].tables[con.ref[1]]
                lookup = {r["id"]: r["value"] for r in target.rows}
        out = []
        for r in t.rows:
            v = V.decode(kind, r["v"], ITEMS, dialect, lookup)
            out.append((V.decode(("int", 8), r["n" if primary else "id"], ITEMS, dialect), v))
        return out

    async def action(ctx: Any, modules: dict) -> None:
        module = modules["app"]
        cls = module.T
        if state == "created":
            ctx.connection.generator.state = ctx.connection.generator.converter.modules_to_catalog([module])
        else:
            await get_dialect(dialect).create_explorer(ctx).synchronize(module=module)
            server.touch()
        base = server.db.copy()
        table = ctx.get_table(cls)
        types = fields_to_types(cls)
        names = tuple(types)
        field_types = tuple(types.values())

        def obj(i: int, v: Any) -> Any:
            v = V.to_object(kind, v, modules, ITEMS)
            return cls(v, i) if primary else cls(i, v)

        def row(i: int, v: Any) -> tuple:
            if kind[0] == "set" and v is not None:
                v = sorted(v, key=repr)
            if kind == INTS and v is not None:
                v = str(v)  # an enumeration value is read from a file as a string
            if kind == ("list", INTS) and v is not None and mode.enum == "type":
                v = list(map(str, v))
            if kind == INTS_HOLDER and v is not None and dialect == "postgresql":
                v = {k: str(x) if k != "n" and x is not None else x for k, x in v.items()}
            return (v, i) if primary else (i, v)

        def typed(i: int, v: Any) -> tuple:
            v = V.to_object(kind, v, modules, ITEMS)
            return (v, i) if primary else (i, v)

        async def rows(fn: Any, data: list) -> None:
            await fn(table, data, field_types=field_types, field_names=names)

        async def attempt(op: str, data: list, old: Any = None) -> Optional[str]:
            "Runs an operation on (identifier, value) pairs; returns what is wrong."

            server.transactions.clear()
            server.db.restore(base)
            server.touch()
            want = sorted(((V.canon(("int", 8), i, ITEMS), V.canon(kind, v, ITEMS)) for i, v in data), key=repr)
            try:
                if op in ("insert_data", "batch"):
                    await ctx.insert_data(cls, [obj(i, v) for i, v in data])
                elif op == "upsert_data":
                    await ctx.upsert_data(cls, [obj(i, v) for i, v in data])
                elif op == "upsert_data twice":
                    await ctx.upsert_data(cls, [obj(i, v) for i, v in data])
                    await ctx.upsert_data(cls, [obj(i, v) for i, v in data])
                elif op in ("insert_rows", "batch rows"):
                    await rows(ctx.insert_rows, [row(i, v) for i, v in data])
                elif op == "upsert_rows":
                    await rows(ctx.upsert_rows, [row(i, v) for i, v in data])
                elif op == "upsert_rows twice":
                    await rows(ctx.upsert_rows, [row(i, v) for i, v in data])
                    await rows(ctx.upsert_rows, [row(i, v) for i, v in data])
                elif op == "replace":
                    await ctx.insert_data(cls, [obj(7, old)])
                    await ctx.upsert_data(cls, [obj(i, v) for i, v in data])
                elif op == "replace rows":
                    await rows(ctx.insert_rows, [row(7, old)])
                    await rows(ctx.upsert_rows, [row(i, v) for i, v in data])
                elif op == "typed rows":
                    types = (int, getattr(module, kind[2]))
                    await ctx.insert_rows(table, [typed(i, v) for i, v in data], field_types=types, field_names=names)
            except Exception as e:
                return f"error: {W.error_head(e)} {W.cause(e)!r:.200}"
            server.touch()
            run.transition()
            try:
                have = sorted(stored(), key=repr)
            except V.Undecodable as e:
                return f"representation: {e}"
            if have != want:
                return f"stored {have!r:.300}, not {want!r:.300}"
            for v in (v for _, v in data):
                run.case((label, f.opt, f.key, state, op, repr(v)))
            run.state((label, f.opt, f.key, repr(have)[:2000]))
            return None

        for v in V.misfits(kind):
            for op in ("insert_data", "upsert_data", "insert_rows", "upsert_rows"):
                wrong = await attempt(op, [(7, v)])
                if wrong and not wrong.startswith("error"):
                    run.violation(f"{label}/misfit", f"{label} (optional {f.opt}, key {f.key}, {state}): {op} of {v!r:.200}: {wrong}",
                                  replay(op, v))

        refused: set[str] = set()
        for op in OPERATIONS:
            if op == "typed rows" and kind[0] != "enum":
                continue
            if op.startswith("batch"):
                wrong = await attempt(op, list(enumerate(values, 1)))
                if wrong and not bad:
                    run.violation(f"{label}/{op}", f"{label} (optional {f.opt}, key {f.key}, {state}): {op} of {values!r:.200}: {wrong}",
                                  replay(op, values))
                continue
            bad: list = []
            if op.startswith("replace"):
                if f.key:
                    continue  # value is (part of) what identifies a record
                pairs = itertools.permutations(values, 2) if run.thorough else zip(values, values[1:] + values[:1])
                for old, v in pairs:
                    if repr(old) in refused or repr(v) in refused:
                        continue  # reported already
                    wrong = await attempt(op, [(7, v)], old)
                    if wrong:
                        bad.append((v, f"over {old!r:.100}: {wrong}"))
            for v in values if not op.startswith("replace") else ():
                wrong = await attempt(op, [(7, v)])
                if wrong:
                    bad.append((v, wrong))
            refused.update(repr(v) for v, _ in bad)
            for v, wrong in bad:
                # values are told apart in the signature only by what matters to how they are stored
                run.violation(f"{label}/{class_of(kind, v)}",
                              f"{label} (optional {f.opt}, key {f.key}, {state}): {op} of {v!r:.200}: {wrong}", replay(op, v))

    def replay(op: str, v: Any) -> Any:
        return {"dialect": dialect, "version": repr(version), "mode": repr(mode), "state": state, "operation": op, "value": repr(v)}

    session.run(version, mode, action)
    run.trace()
    run.sample({"field": label, "optional": f.opt, "key": f.key, "state": state, "values": repr(values)[:200]})
