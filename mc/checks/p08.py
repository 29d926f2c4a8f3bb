"""
P08: lookup tables map every enumeration string to one stable identifier.

One to three writers insert or upsert records through columns that refer to a lookup table. The real library runs against a
model of each database server under a scheduler that enumerates every interleaving of the requests of the writers.
"""

import copy
import itertools
from dataclasses import dataclass
from typing import Any, Iterator, Optional

from pysqlsync import base
from pysqlsync.data.exchange import fields_to_types
from pysqlsync.factory import get_dialect

from ..core import Run, parallel
from ..db import drivers as D
from ..db import interleave as I
from ..db import values as V
from ..db import world as W
from ..db.universe import DEFAULT_SCHEMA, FLAT, C, E, F, M, Mode, Version, build, options

LEVEL = "model_checking"
RULE = (
    "dialect x kind of column x state of the generators x initial contents x programs of the writers (calls, batches, values) x "
    "every interleaving of the requests of concurrent writers; non-trivial = a distinct (configuration, programs, schedule)"
)
ASSUMPTIONS = [
    "each request to the server (a statement, or a statement with several rows where the driver sends them together) is isolated "
    "from requests of other connections, and its effect is visible to the requests that follow",
    "strings are compared exactly (a binary collation)",
]

INT = ("int", 8)
ID = F("id", INT, key="primary")
E1 = E("E", ("a", "b", "c"))
X1 = E("X", ("a",))
ENUM = ("enum", "app", "E")
XENUM = ("xenum", "app", "X")
ITEMS: dict = {("app", "E"): E1, ("app", "X"): X1}


@dataclass(frozen=True)
class Kind:
    name: str
    fields: tuple[F, ...]
    items: tuple
    values: tuple  # all values
    initialize: bool = False

    @property
    def version(self) -> Version:
        return (M("app", (*self.items, C("T", (ID, *self.fields)))),)

    @property
    def mode(self) -> Mode:
        return Mode(enum="relation", initialize=self.initialize)


ONE = Kind("one", (F("e", ENUM, opt=True),), (E1,), ("a", "b", "c"))
INIT = Kind("initialised", (F("e", ENUM, opt=True),), (E1,), ("a", "b", "c"), True)
TWO = Kind("two", (F("e", ENUM), F("f", ENUM, opt=True)), (E1,), ("a", "b", "c"))
BOTH = Kind("both", (F("e", ENUM, opt=True), F("x", XENUM, opt=True)), (E1, X1), ("a", "b", "c"))
OPEN = Kind("open", (F("x", XENUM, opt=True),), (X1,), ("a", "new", "it's"))


@dataclass(frozen=True)
class Call:
    op: str  # insert_rows, upsert_rows, insert_data, upsert_data
    rows: tuple[tuple, ...]  # values of the fields but the key


Program = tuple[Call, ...]


def rows_of(kind: Kind) -> list[tuple[tuple, ...]]:
    "Contents of a call: one or two records."

    a, b, c = kind.values
    n = len(kind.fields)
    if n == 1:
        return [((a,),), ((b,),), ((a,), (b,)), ((b,), (a,)), ((None,), (a,)), ((a,), (a,)), ((None,),), ((c,), (b,))]
    return [((a, b),), ((b, a),), ((a, None),), ((a, a), (b, c)), ((c, b),)]


def configurations(thorough: bool) -> Iterator[tuple]:
    for d in D.DIALECTS:
        for kind in (ONE, INIT, TWO, BOTH, OPEN):
            for state in ("created", "again"):
                for size in (1, 2):
                    if thorough or (state == "created") == (size == 2) or kind is ONE:
                        yield d, kind, state, size


def programs(kind: Kind, size: int, thorough: bool) -> Iterator[tuple[int, tuple[Program, ...]]]:
    "Number of rows that a first writer has stored ahead, and programs to run side by side."

    contents = rows_of(kind)
    ops = ("insert_rows", "upsert_rows", "insert_data", "upsert_data")
    # one writer: histories of two calls (three if thorough)
    for depth in (1, 2, 3) if thorough else (1, 2):
        for sequence in itertools.product(contents, repeat=depth):
            for i in range(len(ops) if depth < 3 else 1):
                yield 0, (tuple(Call(ops[(i + k) % 4], r) for k, r in enumerate(sequence)),)
    # two writers
    small = [r for r in contents if len(r) == 1 or (size == 1 and kind in (ONE, OPEN)) or size == 2]
    for r, s in itertools.product(small, repeat=2):
        steps = [len(r) if size == 1 else 1, len(s) if size == 1 else 1]
        if not thorough and (sum(steps) > 3 or (len(kind.fields) == 2 and (len(r) > 1 or len(s) > 1))):
            continue
        for ahead in (0, 1) if len(kind.fields) == 1 else (0,):
            pairs = [("insert_rows", "upsert_rows")] if not thorough else [("insert_rows", "upsert_rows"), ("upsert_rows", "insert_data")]
            if sum(steps) == 2:
                pairs.append(("insert_data", "upsert_data"))
            for o, p in pairs:
                yield ahead, ((Call(o, r),), (Call(p, s),))
    if size == 2 and len(kind.fields) == 1:
        # two calls by each of two writers
        single = [r for r in contents if len(r) == 1 and r[0][0] is not None]
        for r, s in itertools.product(single, repeat=2) if thorough else [(single[0], single[1])]:
            yield 0, ((Call("insert_rows", r), Call("upsert_rows", s)), (Call("upsert_rows", s), Call("insert_data", r)))
        # three writers
        for triple in itertools.product(single, repeat=3) if thorough else [(single[0], single[0], single[1])]:
            if thorough or kind in (ONE, OPEN):
                yield 0, tuple((Call(o, r),) for o, r in zip(("insert_rows", "upsert_rows", "insert_rows"), triple))


def explore(run: Run) -> None:
    D.install()
    base_items = list(configurations(run.thorough))
    items = []
    for c in base_items:
        n = 8 if run.thorough else 2
        items.extend((c, i, n) for i in range(n))
    items.extend((d, i, 4) for d in D.DIALECTS for i in range(4))
    run.bounds = {"configurations": len(base_items), "writers": 3, "calls": "up to 3 in sequence, 2 by each of 2 writers, 1 by each of 3",
                  "histories over lookup tables of the same name": f"{len(ACTIONS)} actions, {5 if run.thorough else 4} in sequence"}
    parallel(run, work, items)


# two lookup tables of the same name, which are also dropped and created again; all over the same connections
TABLES: dict[str, tuple[str, str, str]] = {"app": ("app", "T", "app"), "aux": ("aux", "T", "aux"), "cross": ("mid", "T", "aux")}
ACTIONS: tuple[tuple, ...] = (
    ("app", 0, (("b",),)), ("app", 0, (("a",), ("b",))), ("aux", 0, (("a",),)), ("aux", 0, (("c",), ("a",))),
    ("cross", 0, (("b",),)), ("app", 1, (("c",),)), ("again", 0, ()),
)
LEFT: Version = (
    M("app", (E1, C("T", (ID, F("e", ENUM))))),
    M("aux", (E("E", ("b", "c", "a")), C("T", (ID, F("e", ("enum", "aux", "E")))))),
    M("mid", (C("T", (ID, F("e", ("enum", "aux", "E")))),)),
)
ENUMS = {("app", "E"): LEFT[0].items[0], ("aux", "E"): LEFT[1].items[0]}


def histories(run: Run, item: tuple) -> None:
    dialect, index, of = item
    mode = Mode(enum="relation")
    session = W.Session(dialect)
    server = session.server
    session.create(LEFT, mode)
    start = server.db.copy()
    modules = build(LEFT)
    base.BATCH_SIZE = 2
    states: list = []

    def rows(ns: str, name: str) -> list[dict]:
        if dialect in FLAT:
            return server.db.schemas[DEFAULT_SCHEMA[dialect]].tables[f"{ns}__{name}"].rows
        return server.db.schemas[ns].tables[name].rows

    class Wrong(Exception):
        pass

    async def one(history: tuple) -> None:
        server.db.restore(start)
        server.touch()
        seen: dict[str, dict] = {"app": {}, "aux": {}}
        expect: dict[str, dict] = {name: {} for name in TABLES}
        async with contextlib_stack([D.connect(dialect, options(LEFT, mode)) for _ in range(2)]) as contexts:
            for ctx in contexts:
                if not states:
                    states.append(ctx.connection.generator.converter.modules_to_catalog(list(modules.values())))
                ctx.connection.generator.state = copy.deepcopy(states[0])
            for n, (name, who, values) in enumerate(history):
                ctx = contexts[who]
                generator = ctx.connection.generator
                if name == "again":
                    await ctx.drop_objects()
                    generator.reset()
                    await ctx.execute(generator.create(modules=list(modules.values())))
                    seen = {"app": {}, "aux": {}}
                    expect = {t: {} for t in TABLES}
                    continue
                ns, table, enum_ns = TABLES[name]
                cls = getattr(modules[ns], table)
                op = ("insert_rows", "upsert_data", "upsert_rows", "insert_data")[n % 4]
                records = [(10 * n + k, *v) for k, v in enumerate(values)]
                if op.endswith("_rows"):
                    types = fields_to_types(cls)
                    await getattr(ctx, op)(ctx.get_table(cls), records, field_types=tuple(types.values()), field_names=tuple(types))
                else:
                    kind = ("enum", enum_ns, "E")
                    await getattr(ctx, op)(cls, [cls(r[0], V.to_object(kind, r[1], modules, ENUMS)) for r in records])
                expect[name].update(records)
                run.transition()
                server.touch()
                for e in seen:
                    now = {r["id"]: r["value"] for r in rows(e, "E")}
                    if len(set(now.values())) != len(rows(e, "E")) or any(now.get(k) != v for k, v in seen[e].items()):
                        raise Wrong(f"lookup table {e}.E has {rows(e, 'E')!r:.300} after {seen[e]!r}")
                    seen[e] = now
                for t, (s, entity, e) in TABLES.items():
                    stored = {int(r["id"]): seen[e].get(r["e"], f"?{r['e']}") for r in rows(s, entity)}
                    if stored != expect[t]:
                        raise Wrong(f"{s}.{entity} has {stored!r:.300}, not {expect[t]!r:.300}")
                run.state((dialect, "histories", tuple(sorted((e, tuple(sorted(m.items()))) for e, m in seen.items()))))

    for i, history in enumerate(h for n in (2, 3, 4, 5)[: 4 if run.thorough else 3] for h in itertools.product(ACTIONS, repeat=n)):
        if i % of != index:
            continue
        try:
            with D.using(server):
                D.run(one(history))
        except Exception as e:
            text = str(e) if isinstance(e, Wrong) else f"fails: {W.error_head(e)} {W.cause(e)!r:.200}"
            run.violation(f"{dialect}/histories/{'+'.join(h[0] for h in history)}", f"{dialect}, {history!r}: {text}",
                          {"dialect": dialect, "history": history})
        run.trace()
        run.case((dialect, "histories", history))


def work(run: Run, item: tuple) -> None:
    if isinstance(item[0], str):
        return histories(run, item)
    (dialect, kind, state, size), index, of = item
    session = W.Session(dialect)
    server = session.server
    version, mode = kind.version, kind.mode
    if state == "created":
        session.create(version, mode)
    else:
        session.sync(version, mode)
    start = server.db.copy()
    schema = DEFAULT_SCHEMA[dialect] if dialect in FLAT else "app"
    prefix = "app__" if dialect in FLAT else ""
    modules = build(version)
    cls = modules["app"].T
    label = f"{dialect}/{kind.name}/{state}"
    base.BATCH_SIZE = size
    known: list = []  # state of the generator of a writer ahead of its first call

    def table(name: str) -> Any:
        return server.db.schemas[schema].tables[prefix + name]

    def lookup() -> dict[str, dict[Any, str]]:
        out = {}
        for i in kind.items:
            if any(f.kind[2] == i.name for f in kind.fields):
                rows = table(i.name).rows
                out[i.name] = {r["id"]: r["value"] for r in rows}
                values = [r["value"] for r in rows]
                if len(set(values)) != len(values) or len(out[i.name]) != len(rows):
                    raise Wrong(f"lookup table {i.name} has {values!r}")
        return out

    class Wrong(Exception):
        pass

    async def call(ctx: Any, c: Call, first: int) -> list[tuple]:
        records = [(first + k, *r) for k, r in enumerate(c.rows)]
        if c.op.endswith("_rows"):
            types = fields_to_types(cls)
            await getattr(ctx, c.op)(ctx.get_table(cls), records, field_types=tuple(types.values()), field_names=tuple(types))
        else:
            await getattr(ctx, c.op)(cls, [
                cls(r[0], *(V.to_object(f.kind, v, modules, ITEMS) for f, v in zip(kind.fields, r[1:]))) for r in records])
        return records

    async def one(ahead: int, plan: tuple[Program, ...], order: list[int], visited: set) -> tuple[list, list]:
        server.db.restore(start)
        server.touch()
        seen: dict[str, dict] = {}
        ever: dict[str, set] = {i: set() for i in lookup()}
        expect: dict[Any, tuple] = {}

        def observe() -> None:
            now = lookup()
            for name, mapping in now.items():
                for k, v in seen.get(name, {}).items():
                    if mapping.get(k) != v:
                        raise Wrong(f"identifier {k} of {v!r} in {name} now means {mapping.get(k)!r}")
            seen.update(now)
            run.state((label, tuple(sorted((n, tuple(sorted(m.items()))) for n, m in now.items())), len(table("T").rows)))

        async with contextlib_stack([D.connect(dialect, options(version, mode)) for _ in plan]) as contexts:
            for ctx in contexts:
                if not known:
                    if state == "created":
                        ctx.connection.generator.state = ctx.connection.generator.converter.modules_to_catalog([modules["app"]])
                    else:
                        await get_dialect(dialect).create_explorer(ctx).synchronize(module=modules["app"])
                    known.append(ctx.connection.generator.state)
                ctx.connection.generator.state = copy.deepcopy(known[0])
            if ahead:
                for r in await call(contexts[0], Call("insert_rows", ((kind.values[1],) * len(kind.fields),)), 900):
                    expect[r[0]] = r[1:]

            def program(i: int) -> Any:
                async def body() -> None:
                    for n, c in enumerate(plan[i]):
                        for r in await call(contexts[i], c, 100 * (i + 1) + 10 * n):
                            expect[r[0]] = r[1:]

                return body

            scheduler = I.Scheduler(server, order, observe, visited)
            errors = await scheduler.run([program(i) for i in range(len(plan))])
        if scheduler.pruned:
            return scheduler.choices, scheduler.trace
        for i, e in enumerate(errors):
            if e is not None:
                raise Wrong(f"writer {i} failed: {W.error_head(e)} {W.cause(e)!r:.200}; steps {scheduler.trace!r:.600}")
        server.touch()
        names = lookup()
        stored = {r["id"]: tuple(None if r[f.name] is None else names[f.kind[2]].get(r[f.name], f"?{r[f.name]}") for f in kind.fields)
                  for r in table("T").rows}
        stored = {int(k): v for k, v in stored.items()}
        if stored != expect or len(table("T").rows) != len(expect):
            raise Wrong(f"stored {stored!r:.300}, not {expect!r:.300}; steps {scheduler.trace!r:.600}")
        return scheduler.choices, scheduler.trace

    def attempt(ahead: int, plan: tuple[Program, ...]) -> None:
        order: Optional[list[int]] = []
        count = 0
        visited: set = set()
        while order is not None:
            try:
                with D.using(server):
                    choices, trace = D.run(one(ahead, plan, order, visited))
            except Wrong as e:
                ops = "+".join(c.op for p in plan for c in p)
                run.violation(f"{label}/{len(plan)} writers/{ops}", f"{label}, batches of {size}, {ahead} stored ahead: {plan!r:.400}: {e}",
                              {"configuration": repr((dialect, kind, state, size)), "ahead": ahead, "programs": repr(plan), "schedule": order})
                return
            run.transition(len(choices))
            run.trace()
            run.case((label, size, ahead, plan, tuple(c for c, _ in choices)))
            count += 1
            order = I.next_prefix(choices)
        if len(plan) > 1:
            run.sample({"configuration": label, "programs": repr(plan)[:300], "schedules": count, "last": repr(trace)[:500]})

    for n, (ahead, plan) in enumerate(programs(kind, size, run.thorough)):
        if n % of == index:
            attempt(ahead, plan)


class contextlib_stack:
    "Enters several asynchronous context managers."

    def __init__(self, managers: list) -> None:
        self.managers = managers

    async def __aenter__(self) -> list:
        return [await m.__aenter__() for m in self.managers]

    async def __aexit__(self, *args: Any) -> None:
        for m in self.managers:
            await m.__aexit__(None, None, None)
