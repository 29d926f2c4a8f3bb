"""
P06: inserting, upserting and deleting behave like operations on a keyed map.

Explicit-state exploration: from the empty table, every operation of a finite alphabet is applied by the real library to a
model of each database server in every reachable state of the table, until no new state appears. Each result is compared
with the same operation on a map from key to record.
"""

import itertools
import os
import time
import uuid
from dataclasses import dataclass
from typing import Any, Iterator, Optional

from pysqlsync.factory import get_dialect
from pysqlsync.model.key_types import DEFAULT
from pysqlsync.model.properties import get_class_properties

from ..core import Run, parallel
from ..db import drivers as D
from ..db import values as V
from ..db import world as W
from ..db.universe import DEFAULT_SCHEMA, FLAT, C, E, F, M, Mode, Version

LEVEL = "model_checking"
RULE = (
    "dialect x table shape x state of the generator: all operations of the alphabet (insert, upsert, delete; objects or rows; "
    "one or two records; every subset and order of columns; list, generator or asynchronous source) in all reachable "
    "contents of the table; non-trivial = a distinct (configuration, contents, operation)"
)
ASSUMPTIONS = [
    "the database is a model of the server and the driver of each dialect, in which a failing batch of a single call leaves "
    "no trace where the server is transactional",
    "an operation that a server has to reject (duplicate key, missing required value) may raise an error, but must not change "
    "existing records",
]

E1 = E("E", ("a", "b"))
ITEMS: dict = {("app", "E"): E1}
INT = ("int", 8)


@dataclass(frozen=True)
class Shape:
    name: str
    table: C
    domain: tuple[tuple, ...]  # values of each field; the absence of a value for DEFAULT
    items: tuple = ()  # other classes
    fill: tuple = ()  # rows of other tables: (class, values)
    before: Optional[C] = None  # earlier version of the table
    mode: Mode = Mode()

    def version(self, table: Optional[C] = None) -> Version:
        return (M("app", (*self.items, table or self.table)),)


def shapes(dialect: str) -> Iterator[Shape]:
    U = uuid.UUID
    key = F("id", INT, key="primary")
    yield Shape("plain", C("T", (key, F("a", ("str",)), F("b", INT, opt=True))), ((1, 2), ("p", "q"), (None, 5)))
    yield Shape("default", C("T", (key, F("a", ("str",), opt=True), F("d", INT, default=7))), ((1, 2), (None, "p"), (7, 8)))
    yield Shape("last-key", C("T", (F("a", INT), F("b", ("str",), opt=True), key)), ((3, 4), (None, "p"), (1, 2)))
    yield Shape("identity", C("T", (F("id", INT, key="identity"), F("n", INT), F("s", ("str",), opt=True))), ((1, 2), (3, 4), (None, "p")))
    yield Shape("identity-unique", C("T", (F("id", INT, key="identity"), F("code", ("str", 20), key="unique"), F("n", INT))),
                ((1, 2), ("x", "y"), (3, 4)))
    yield Shape("uuid", C("T", (F("id", ("uuid",), key="primary"), F("t", ("bool",)), F("d", ("uuid",), opt=True))),
                ((U(int=1), U(int=2)), (False, True), (None, U(int=3))))
    yield Shape("key-only", C("T", (F("id", ("str", 20), key="primary"),)), (("x", "y", "z"),))
    yield Shape("unique", C("T", (key, F("u", ("str", 20), key="unique"), F("v", INT, opt=True))), ((1, 2), ("x", "y"), (None, 5)))
    yield Shape("two-unique", C("T", (key, F("u", INT, key="unique"), F("v", INT, key="unique"))), ((1, 2), (3, 4), (5, 6)))
    enum = ("enum", "app", "E")
    modes = {"postgresql": ("type", "relation"), "mysql": ("inline", "relation")}.get(dialect, ("relation", "check"))
    for m in modes:
        yield Shape(f"enum-{m}", C("T", (key, F("e", enum), F("o", enum, opt=True))), ((1, 2), ("a", "b"), (None, "b")), (E1,),
                    mode=Mode(enum=m))
    yield Shape("identity-enum", C("T", (F("id", INT, key="identity"), F("e", enum), F("o", enum, opt=True))),
                ((1, 2), ("a", "b"), (None, "b")), (E1,), mode=Mode(enum="relation"))
    parent = C("P", (F("id", INT, key="primary"), F("s", ("str",))))
    yield Shape("foreign", C("T", (key, F("p", ("ref", "app", "P")), F("q", ("ref", "app", "P"), opt=True))), ((1, 2), (10, 11), (None, 11)),
                (parent,), ((parent, (10, "ten")), (parent, (11, "eleven"))))
    code = C("P", (F("id", ("str", 20), key="primary"), F("code", ("str", 20), key="unique")))
    yield Shape("foreign-text", C("T", (key, F("p", ("ref", "app", "P")))), ((1, 2), ("k", "l")),
                (code,), ((code, ("k", "x")), (code, ("l", "k"))))
    yield Shape("grown", C("T", (key, F("a", ("str",), opt=True), F("b", ("str",)), F("c", ("str",)))),
                ((1, 2), (None, "p"), ("q",), ("r", "s")), before=C("T", (key, F("c", ("str",)), F("b", ("str",)))))


@dataclass(frozen=True)
class Op:
    kind: str  # insert, upsert, delete
    api: str  # data, rows
    records: tuple[tuple, ...]  # values of `names`, or keys
    names: tuple[str, ...] = ()  # fields supplied
    form: str = "list"  # how records are passed
    layout: str = "names"  # how unused values of rows are marked: names, blank, none

    def __str__(self) -> str:
        what = f"{self.kind}_{self.api}" + ("" if self.form == "list" else f"[{self.form}]") + ("" if self.layout == "names" else f"[{self.layout}]")
        return f"{what}({', '.join(self.names)}) {list(self.records)!r:.150}"


def alphabet(shape: Shape, thorough: bool) -> list[Op]:
    fields = shape.table.fields
    names = tuple(f.name for f in fields)
    pk = shape.table.primary
    domain = dict(zip(names, shape.domain))
    everything = list(itertools.product(*shape.domain))
    keys = domain[pk.name]
    out: list[Op] = []
    seconds = everything if thorough else everything[:: max(1, len(everything) // 4)]
    identity = pk.key == "identity"

    # objects
    supplied = tuple(n for n in names if not (identity and n == pk.name))
    for r in everything if not identity else itertools.product(*(domain[n] for n in supplied)):
        out.append(Op("insert", "data", (r,), supplied))
    for r in everything:
        out.append(Op("upsert", "data", (r,), names))
    for r, s in itertools.product(everything, seconds):
        out.append(Op("upsert", "data", (r, s), names, "generator" if r is not s else "list"))
        if not identity and r != s:
            out.append(Op("insert", "data", (r, s), names, "list" if (everything.index(r) % 2) else "generator"))
    for k in keys:
        out.append(Op("delete", "data", (k,)))
        out.append(Op("delete", "rows", (k,)))
    out.append(Op("delete", "data", tuple(keys), (), "generator"))
    out.append(Op("delete", "rows", tuple(keys), (), "generator"))

    # rows
    unique = [f.name for f in fields if f.key == "unique"]
    for size in range(1, len(names) + 1):
        for subset in itertools.combinations(names, size):
            if pk.name not in subset and not (identity or (unique and set(subset) & set(unique))):
                continue
            orders = list(itertools.permutations(subset))
            if len(orders) > 6 and not thorough:
                orders = [subset, subset[::-1], subset[1:] + subset[:1]]
            for order in orders:
                projected = list(itertools.product(*(domain[n] for n in order)))
                for r in projected:
                    if identity and pk.name in order:
                        pass  # identity values are generated by the server
                    elif pk.name in order or identity:
                        out.append(Op("insert", "rows", (r,), order))
                    if pk.name in order or (identity and set(order) & set(unique)):
                        out.append(Op("upsert", "rows", (r,), order))
                if pk.name in order and not identity:
                    r, s = projected[0], projected[-1]
                    for kind in ("insert", "upsert"):
                        out.append(Op(kind, "rows", (r, s), order, "async"))
                    out.append(Op("upsert", "rows", (r, r), order, "generator"))
            # fields of the source that are not stored
            if size < len(names) and pk.name in subset and not identity:
                projected = list(itertools.product(*(domain[n] for n in subset)))
                for layout in ("blank", "none", "none-default"):
                    for r in projected[:2]:
                        for kind in ("insert", "upsert"):
                            out.append(Op(kind, "rows", (r,), subset, "list", layout))
    return out


def explore(run: Run) -> None:
    D.install()
    items = [(d, s, state) for d in D.DIALECTS for s in shapes(d) for state in ("created", "synchronised", "again")
             if not (s.before and state == "created") and (run.thorough or s.before or state != "synchronised")]
    items.sort(key=lambda x: -len(x[1].domain) ** 2 * sum(map(len, x[1].domain)))
    run.bounds = {"configurations": len(items), "depth": "all reachable contents of up to three records, with generated keys up to 3 (4 if thorough)"}
    parallel(run, work, items)


class Wrong(Exception):
    pass


Record = tuple
Contents = frozenset  # of records in the order of fields


def expected(shape: Shape, before: Contents, op: Op) -> tuple[set, bool, bool]:
    """
    Contents if the operation succeeds, whether an error is not acceptable, and whether a record has a unique value of another.

    Records with a generated key have the key `None`.
    """

    fields = shape.table.fields
    names = [f.name for f in fields]
    pk = shape.table.primary
    index = names.index(pk.name)
    rows = {r[index]: r for r in before}
    fine = True
    clash = False

    def conflict(key: Any, new: Record) -> bool:
        return any(f.key == "unique" and any(k != key and r[i] == new[i] for k, r in rows.items()) for i, f in enumerate(fields))

    fresh = 0
    for record in op.records:
        if op.kind == "delete":
            rows.pop(record, None)
            continue
        given = dict(zip(op.names, record))
        key = given.get(pk.name)
        if op.kind == "upsert" and pk.name not in given:  # found by another unique field
            key = next((k for k, r in rows.items()
                        if any(f.key == "unique" and f.name in given and r[i] == given[f.name] for i, f in enumerate(fields))), None)
        if op.kind == "insert" and key in rows:
            fine = False  # ignored, or an error
            continue
        if any(f.name not in given and not f.opt and f.default is None and f is not pk for f in fields):
            fine = False  # servers check a record to insert in full before they look for an existing one
        if key in rows:
            new = tuple(given.get(n, old) for n, old in zip(names, rows[key]))
        else:
            if any(f.name not in given and not f.opt and f.default is None and f is not pk for f in fields):
                fine = False  # missing required value
                continue
            if key is None:
                fresh += 1
                key = ("new", fresh)
            elif pk.key == "identity":
                key = ("new or given", key)
            new = tuple(given.get(f.name, f.default) for f in fields)
        if conflict(key, new):
            fine, clash = False, True
            continue
        rows[key] = tuple(key if i == index else v for i, v in enumerate(new))
    return set(rows.values()), fine, clash


def matches(shape: Shape, have: Contents, want: set, before: Contents) -> bool:
    names = [f.name for f in shape.table.fields]
    index = names.index(shape.table.primary.name)
    exact = {r for r in want if not isinstance(r[index], tuple)}
    loose = [r for r in want if isinstance(r[index], tuple)]
    if not exact <= have:
        return False
    rest = list(have - exact)
    if len(rest) != len(loose):
        return False
    rest_values = sorted((repr(r[:index] + r[index + 1:]) for r in rest))
    loose_values = sorted((repr(r[:index] + r[index + 1:]) for r in loose))
    return rest_values == loose_values


def work(run: Run, item: tuple) -> None:
    dialect, shape, state = item
    session = W.Session(dialect)
    server = session.server
    mode = shape.mode
    version = shape.version()
    schema, name = (DEFAULT_SCHEMA[dialect], "app__T") if dialect in FLAT else ("app", "T")
    if shape.before:
        session.sync(shape.version(shape.before), mode)
    if state == "created":
        session.create(version, mode)
    elif state == "again":
        session.sync(version, mode)
        if any(con.kind == "c" for s in server.db.schemas.values() for t in s.tables.values() for con in t.cons.values()):
            return  # restrictions on values are not discovered, and are created for a second time (a finding of P02)
    fields = shape.table.fields
    names = [f.name for f in fields]
    pk = shape.table.primary
    ops = alphabet(shape, run.thorough)

    def canon(f: F, v: Any) -> Any:
        return V.canon(f.kind if f.kind[0] != "ref" else ("opaque",), v, ITEMS)

    def stored() -> Contents:
        db = server.committed()
        t = db.schemas[schema].tables[name]
        lookups = {}
        for con in t.cons.values():
            if con.kind == "f":
                target = db.schemas[con.ref[0]].tables[con.ref[1]]
                if any(c.name == "value" for c in target.cols):
                    lookups[con.cols[0]] = {r["id"]: r["value"] for r in target.rows}
        out = []
        for r in t.rows:
            out.append(tuple(V.decode(f.kind if f.kind[0] != "ref" else ("opaque",), r[f.name], ITEMS, dialect, lookups.get(f.name)) for f in fields))
        if len(set(out)) != len(out):
            raise Wrong(f"duplicate records {out!r:.300}")
        return frozenset(out)

    def canonical(op: Op) -> Op:
        by_name = {f.name: f for f in fields}
        if op.kind == "delete":
            records = tuple(canon(pk, k) for k in op.records)
        else:
            records = tuple(tuple(canon(by_name[n], v) for n, v in zip(op.names, r)) for r in op.records)
        return Op(op.kind, op.api, records, op.names)

    canonical_shape = Shape(shape.name, C("T", tuple(F(f.name, f.kind, f.opt, f.key, None if f.default is None else canon(f, f.default))
                                                     for f in fields)), shape.domain)

    async def action(ctx: Any, modules: dict) -> None:
        module = modules["app"]
        cls = module.T
        if state == "created":
            ctx.connection.generator.state = ctx.connection.generator.converter.modules_to_catalog([module])
        else:
            await get_dialect(dialect).create_explorer(ctx).synchronize(module=module)
            server.touch()
        for c, row in shape.fill:
            owner = getattr(module, c.name)
            await ctx.insert_data(owner, [owner(*row)])
        server.touch()
        table = ctx.get_table(cls)
        types = dict(zip(names, get_class_properties(cls).tsv_types)) if not any(f.kind[0] == "ref" for f in fields) else {
            f.name: {"int": int, "str": str, "ref": type(d[-1])}[f.kind[0]] for f, d in zip(fields, shape.domain)}
        by_name = {f.name: f for f in fields}

        def source(op: Op, records: list) -> Any:
            if op.form == "list":
                return records
            if op.form == "generator":
                return (r for r in records)

            async def produce() -> Any:
                for r in records:
                    yield r

            return produce()

        async def perform(op: Op) -> None:
            if op.kind == "delete":
                if op.api == "data":
                    await ctx.delete_data(cls, source(op, list(op.records)))
                else:
                    await ctx.delete_rows(table, types[pk.name], source(op, list(op.records)))
            elif op.api == "data":
                objects = []
                for r in op.records:
                    given = dict(zip(op.names, r))
                    objects.append(cls(*(V.to_object(f.kind, given[f.name], modules, ITEMS) if f.name in given else DEFAULT for f in fields)))
                await (ctx.insert_data if op.kind == "insert" else ctx.upsert_data)(cls, source(op, objects))
            else:
                order: tuple = op.names
                records = list(op.records)
                field_names: Any = order
                field_types = tuple(types[n] for n in order)
                if op.layout != "names":
                    order = tuple(names)
                    records = [tuple(dict(zip(op.names, r)).get(n, "unused") for n in order) for r in op.records]
                    if op.layout == "blank":
                        field_names = tuple(n if n in op.names else "" for n in order)
                        field_types = tuple(types[n] for n in order)
                    else:
                        field_names = order
                        field_types = tuple(types[n] if n in op.names else type(None) for n in order)
                        if op.layout == "none-default":
                            order = tuple(c.name.local_id for c in table.get_columns())
                            records = [tuple(dict(zip(op.names, r)).get(n, "unused") for n in order) for r in op.records]
                            field_types = tuple(types[n] if n in op.names else type(None) for n in order)
                            field_names = None
                fn = ctx.insert_rows if op.kind == "insert" else ctx.upsert_rows
                await fn(table, source(op, records), field_types=field_types, field_names=field_names)

        label = f"{dialect}/{shape.name}"
        start = server.db.copy()
        empty = stored()
        seen = {empty: start}
        todo = [empty]
        limit = 4 if run.thorough else 3  # generated keys do not repeat
        while todo:
            before = todo.pop()
            run.state((label, state, before))
            for op in ops:
                if shape.table.primary.key == "identity" and op.kind == "upsert" and pk.name in op.names:
                    # servers disagree on whether a new record keeps the key it was given
                    have_keys = {r[names.index(pk.name)] for r in before}
                    if any(canon(pk, r[op.names.index(pk.name)]) not in have_keys for r in op.records):
                        continue
                server.transactions.clear()
                server.db.restore(seen[before])
                server.touch()
                error: Optional[BaseException] = None
                try:
                    await perform(op)
                except Exception as e:
                    error = e
                server.touch()
                run.transition()
                run.case((label, state, before, op))
                want, fine, clash = expected(canonical_shape, before, canonical(op))
                what = ""
                try:
                    after = stored()
                    if error is not None:
                        if fine:
                            what = f"error: {W.error_head(error)} {W.cause(error)!r:.200}"
                        elif not (after <= set(before) | {r for r in want} and before <= after if op.kind == "insert" else True):
                            what = f"error, and contents {sorted(after, key=repr)!r:.300}"
                    elif not matches(canonical_shape, after, want, before):
                        what = f"contents {sorted(after, key=repr)!r:.300}, not {sorted(want, key=repr)!r:.300}"
                except (V.Undecodable, Wrong) as e:
                    after = before
                    what = f"contents: {e}"
                if what:
                    subset = "keys" if op.kind == "delete" else "all" if len(op.names) == len(names) else "+".join(sorted(op.names))
                    if clash and error is None:
                        subset = "unique-value-of-another-record"
                    run.violation(f"{label}/{op.kind}_{op.api}/{subset}/{op.layout}",
                                  f"{label} ({state}) with {sorted(before, key=repr)!r:.300}: {op}: {what}",
                                  {"dialect": dialect, "shape": repr(shape), "state": state, "before": repr(sorted(before, key=repr)), "operation": repr(op)})
                    continue
                if after not in seen and len(after) <= 3 and (pk.key != "identity" or all(r[names.index(pk.name)] <= limit for r in after)):
                    seen[after] = server.committed().copy()
                    todo.append(after)
        run.sample({"configuration": label, "generator": state, "operations": len(ops), "contents": len(seen)})

    begin = time.time()
    session.run(version, mode, action)
    run.trace()
    if os.environ.get("VERIF_TIMES"):
        print(f"{time.time() - begin:.1f} {dialect} {shape.name} {state} {len(ops)}", flush=True)
