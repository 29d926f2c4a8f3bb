"""
P17: synchronisation leaves other namespaces alone.

The real library runs operations on one namespace of a model of each database server, in which there are other namespaces whose
names are similar and which have objects of the same names. All histories of operations up to a bound are explored. After each
request to the server, what does not belong to the namespace is compared with what it was at the start; after each operation,
the outcome and the namespace are compared with those of the same history on a server that has nothing but the namespace.
"""

from dataclasses import dataclass
from typing import Any, Callable, Iterator, Optional

from pysqlsync.data.exchange import fields_to_types
from pysqlsync.factory import get_dialect
from pysqlsync.model.id_types import LocalId

from ..core import HarnessError, Run, Stop, parallel
from ..db import drivers as D
from ..db import world as W
from ..db.model import Db, contents, freeze, structure
from ..db.rows import populate
from ..db.universe import DEFAULT_SCHEMA, FLAT, C, E, Expected, F, M, Mode, Version

LEVEL = "model_checking"
RULE = (
    "dialect x mode x name of the namespace x names of the others x (others unknown, known or synchronised too) x history of "
    "operations; non-trivial = a distinct (configuration, state of the database, operation)"
)
ASSUMPTIONS = [
    "on MySQL and Oracle, where a namespace is a prefix with two underscores, no name of a namespace or table has two underscores "
    "in a row, or begins or ends with an underscore",
    "names of schemas differ in more than case on SQL Server and MySQL",
    "a namespace that refers to another is synchronised together with it",
]

INT = ("int", 8)
ID = F("id", INT, key="primary")


def text(dialect: str, n: int) -> tuple:
    return ("str", n)


def content(ns: Optional[str], own: bool, step: int) -> M:
    "Objects of a namespace; those of other namespaces have the same names and other definitions."

    if step == 0:
        return M(ns, ())
    link = F("items", ("list", ("ref", ns, "G")))
    if not own:
        return M(ns, (
            E("E", ("p", "q", "x")),
            C("S", (F("w", ("float", 8)),), "Other."),
            C("G", (ID, F("title", ("str", 20)), F("code", ("int", 4), key="unique")), "Other groups."),
            C("T", (ID, F("t", ("str",)), F("e", ("enum", ns, "E"), opt=True), F("g", ("ref", ns, "G")), F("s", ("struct", ns, "S"), opt=True),
                    F("d", INT, default=3))),
            C("L", (ID, link)),
        ))
    if step == 1:
        return M(ns, (
            E("E", ("x", "y")),
            C("S", (F("v", INT),), "Struct."),
            C("G", (ID, F("name", ("str", 10)))),
            C("T", (ID, F("n", INT, opt=True, doc="Number."), F("e", ("enum", ns, "E"), opt=True), F("g", ("ref", ns, "G"), opt=True),
                    F("d", INT, default=7))),
            C("L", (ID, F("s", ("struct", ns, "S"), opt=True), link)),
        ))
    return M(ns, (
        E("E", ("x", "y", "z")),
        C("S", (F("v", INT), F("u", ("str",), opt=True)), "Changed."),
        C("G", (ID, F("name", ("str", 20)), F("k", ("int", 4), opt=True, key=None)), "Groups."),
        C("T", (ID, F("n", INT, opt=True), F("e", ("enum", ns, "E"), opt=True), F("g", ("ref", ns, "G"), opt=True), F("d", INT, default=9),
                F("c", ("bool",), default=True))),
        C("K", (ID, F("code", INT, key="unique"), F("s", ("struct", ns, "S"), opt=True))),
    ))


NAMES: tuple[Optional[str], ...] = ("a", "a_b", "aXb", "ab", "b", "A", None)
# characters that stand for others in a pattern, that escape these, or that end a literal
SPECIAL: tuple[str, ...] = ("a~b", "a%b", "a\\b", "a'b")
SIMILAR: tuple[str, ...] = ("a", "ab", "aXb", "a~", "a~~b")


def pairs(dialect: str) -> Iterator[tuple[Optional[str], Optional[str]]]:
    "(namespace, other namespace)"

    for m in NAMES:
        for o in NAMES:
            if m != o and not (dialect in ("mssql", "mysql") and {m, o} == {"a", "A"}):
                yield m, o


@dataclass(frozen=True)
class Config:
    dialect: str
    mode: Mode
    name: Optional[str]
    others: tuple[Optional[str], ...]
    known: str  # if the others are part of the program

    @property
    def label(self) -> str:
        mode = f"{self.mode.enum or '-'}{'+' if self.mode.initialize else ''}"
        return f"{self.dialect}/{mode}/{self.name}/{'+'.join(str(o) for o in self.others)}/{self.known}"


def belongs(dialect: str, name: Optional[str], schema: str, obj: str) -> bool:
    "True if an object is one of the namespace."

    if dialect in FLAT:
        if schema != DEFAULT_SCHEMA[dialect]:
            return False
        return obj.startswith(f"{name}__") if name is not None else "__" not in obj
    return schema == (name or DEFAULT_SCHEMA[dialect])


def split(db: Db, name: Optional[str]) -> tuple[dict, dict]:
    "What belongs to the namespace, and what does not: structure and rows."

    parts: tuple[dict, dict] = ({}, {})
    for schema, kinds in structure(db, names=True, order=True).items():
        for kind, objs in kinds.items():
            for obj, value in objs.items():
                parts[0 if belongs(db.dialect, name, schema, obj) else 1][(schema, kind, obj)] = freeze(value)
    for (schema, obj), rows in contents(db).items():
        parts[0 if belongs(db.dialect, name, schema, obj) else 1][(schema, "rows", obj)] = freeze(rows)
    return parts


def differing(a: dict, b: dict) -> str:
    out = [f"{'/'.join(k)}: {a.get(k)!r:.300} instead of {b.get(k)!r:.300}" for k in sorted(a.keys() | b.keys()) if a.get(k) != b.get(k)]
    return "; ".join(out[:3])


# operations -----------------------------------------------------------------------------


def values(cls: Any, module: Any, step: int) -> list:
    es = [None, module.E("x"), module.E("y")]
    if step == 1:
        return [cls(i, 10 + i if i % 2 else None, es[i % 3], 1 if i == 1 else None, i) for i in range(1, 5)]
    return [cls(i, 20 + i if i % 2 else None, es[(i + 1) % 3], 1 if i == 2 else None, i, bool(i % 2)) for i in range(2, 7)]


def operations(c: Config) -> Iterator[tuple[str, int, Callable]]:
    "(name, version of the namespace, operation)"

    async def synchronize(ctx: Any, modules: dict) -> None:
        listed = list(modules.values()) if c.known == "listed" else [modules[c.name]]
        await get_dialect(c.dialect).create_explorer(ctx).synchronize(modules=listed)

    async def discover(ctx: Any, modules: dict) -> Any:
        await get_dialect(c.dialect).create_explorer(ctx).discover(modules=[modules[c.name]])
        return str(ctx.connection.generator.state)

    async def drop(ctx: Any, modules: dict) -> None:
        await get_dialect(c.dialect).create_explorer(ctx).discover(modules=[modules[c.name]])
        await ctx.drop_objects()

    async def create(ctx: Any, modules: dict) -> None:
        m = modules[c.name]
        await ctx.create_objects([m.G, m.T])

    async def schema(ctx: Any, modules: dict) -> None:
        await ctx.drop_schema(LocalId(c.name))

    async def drop_table(ctx: Any, modules: dict) -> None:
        from pysqlsync.base import ClassRef

        await ctx.drop_table_if_exists(ctx.get_table_id(ClassRef(modules[c.name].T)))

    for step in (0, 1, 2):
        yield f"sync-{step}", step, synchronize
    yield "discover", 1, discover
    yield "drop-objects", 1, drop
    yield "create", 1, create
    if c.name is not None:
        yield "drop-schema", 1, schema
    yield "drop-table", 1, drop_table

    def rows(op: str, step: int) -> Callable:
        async def perform(ctx: Any, modules: dict) -> None:
            m = modules[c.name]
            if op.endswith("_rows"):
                await get_dialect(c.dialect).create_explorer(ctx).discover(modules=[m])
                table = ctx.get_table(m.T)
                types = fields_to_types(m.T)
                if op == "delete_rows":
                    await ctx.delete_rows(table, int, [1, 2, 9])
                else:
                    names = list(types)
                    records = [tuple(x.value if hasattr(x, "value") else x for x in (getattr(v, n) for n in names)) for v in values(m.T, m, step)]
                    await getattr(ctx, op)(table, records, field_types=tuple(types.values()), field_names=tuple(names))
            elif op == "delete_data":
                await ctx.delete_data(m.T, [1, 2, 9])
            else:
                if op == "insert_data":
                    await ctx.insert_data(m.G, [m.G(1, "one"), m.G(2, "two")] if step == 1 else [m.G(1, "one", 1), m.G(2, "two", None)])
                await getattr(ctx, op)(m.T, values(m.T, m, step))

        return perform

    for op in ("insert_data", "upsert_data", "delete_data", "insert_rows", "upsert_rows", "delete_rows"):
        yield op, 1, rows(op, 1)
    yield "upsert_data", 2, rows("upsert_data", 2)
    yield "upsert_rows", 2, rows("upsert_rows", 2)


class Changed(Exception):
    pass


def foreign(dialect: str, versions: list[Version], mode: Mode) -> Optional[list[Db]]:
    "Other databases on the server that its catalog lists."

    if dialect not in FLAT:
        return None
    out = []
    for version in versions:
        session = W.Session(dialect)
        session.create(version, mode)
        session.server.db.schemas[DEFAULT_SCHEMA[dialect]].name = f"OTHER{len(out)}"
        out.append(session.server.db)
    return out


def version(c: Config, step: int, twin: bool) -> Version:
    v = [content(c.name, True, step)]
    if c.known != "unknown" and not twin:
        v.extend(content(o, False, 1) for o in c.others)
    return tuple(v)


def perform(session: W.Session, c: Config, op: tuple, twin: bool) -> tuple:
    "Outcome of an operation."

    name, step, action = op
    try:
        result = session.run(version(c, step, twin), c.mode, action)
    except (Changed, Stop, HarnessError):
        raise
    except Exception as e:
        return ("error", W.error_head(e))
    return ("result", result)


def bystanders(session: W.Session, c: Config) -> None:
    "Creates the other namespaces, with rows, and tables without a namespace whose names resemble the prefix."

    for o in c.others:
        session.sync((content(o, False, 1),), c.mode)
    if c.name is not None and None not in c.others:
        schema = {"postgresql": '"public".', "mssql": "[dbo]."}.get(c.dialect, "")
        left, right = {"mysql": "``", "mssql": "[]"}.get(c.dialect, '""')
        kind = "number(19)" if c.dialect == "oracle" else "bigint"
        for t in (f"{c.name}_T", f"{c.name}XXT", f"{c.name}_", "T", "G", "E"):
            session.server.statement(f"CREATE TABLE {schema}{left}{t}{right} ({left}id{right} {kind} NOT NULL PRIMARY KEY)")
    lookup: dict = {}
    for o in c.others:
        lookup.update(Expected((content(o, False, 1),), c.dialect, c.mode).lookup)
    populate(session.server.db, 3, True, lookup)


def work(run: Run, item: tuple) -> None:
    configs, depth = item
    twins: dict = {}  # state of the namespace alone -> operation -> (outcome, state, database)
    for c in configs:
        explore_one(run, c, depth, twins)


def key_of(db: Db, name: Optional[str]) -> Any:
    own, _ = split(db, name)
    ids = tuple(sorted((t.schema, t.name, t.next_id) for t in db.tables() if belongs(db.dialect, name, t.schema, t.name)))
    return (freeze(own), ids, tuple(sorted(s for s in db.schemas if s == name)))


def explore_one(run: Run, c: Config, depth: int, twins: dict) -> None:
    others = foreign(c.dialect, [(content(c.name, False, 1),)], c.mode)
    session = W.Session(c.dialect, others)
    server = session.server
    bystanders(session, c)
    _, expected = split(server.db, c.name)
    alone = W.Session(c.dialect)

    def monitor(kind: str, sql: str) -> None:
        if kind == "query":
            return
        _, now = split(server.db, c.name)
        if now != expected:
            raise Changed(f"{sql!r:.300} changes {differing(now, expected)}")

    server.after = monitor
    ops = list(operations(c))
    start = key_of(alone.server.db, c.name)
    frontier: list[tuple[Db, Db, tuple]] = [(server.db.copy(), alone.server.db.copy(), ())]
    seen = {start}
    for level in range(depth):
        frontier, current = [], frontier
        for base, base_alone, history in current:
            state = key_of(base_alone, c.name)
            for n, op in enumerate(ops):
                sig = f"{c.label}/{op[0]}-{op[1]}"
                path = history + (f"{op[0]}-{op[1]}",)
                cached = twins.get((state, n, c.name))
                if cached is None:
                    alone.server.db.restore(base_alone)
                    alone.server.touch()
                    outcome = perform(alone, c, op, True)
                    own, rest = split(alone.server.db, c.name)
                    if any(k[1] != "rows" for k in rest):
                        run.violation(f"{sig}/elsewhere", f"{c.label} {path}: creates {sorted(rest)!r:.300}", {"config": c.label, "history": path})
                    cached = twins[(state, n, c.name)] = (outcome, own, alone.server.db.copy())
                server.db.restore(base)
                server.touch()
                run.transition()
                with run.limit(sig):
                    try:
                        result = perform(session, c, op, False)
                    except Changed as e:
                        run.violation(f"{sig}/changed", f"{c.label} {path}: {e}", {"config": c.label, "history": path})
                        continue
                    run.trace()
                    own, rest = split(server.db, c.name)
                    problem = None
                    if rest != expected:
                        problem = f"changes {differing(rest, expected)}"
                    elif result != cached[0]:
                        problem = f"outcome {result!r:.300} instead of {cached[0]!r:.300} without the other namespaces"
                    elif own != cached[1]:
                        problem = f"leads to {differing(own, cached[1])}, which is the outcome without the other namespaces"
                    run.case((c.label, state, n), result[0])
                    if problem is not None:
                        run.violation(f"{sig}/{problem.split()[0]}", f"{c.label} {path}: {problem}", {"config": c.label, "history": path})
                        continue
                    after = key_of(cached[2], c.name)
                    run.state((c.label, after))
                    if after not in seen:
                        seen.add(after)
                        frontier.append((server.db.copy(), cached[2].copy(), path))
    run.sample({"configuration": c.label, "states": len(seen)})


def explore(run: Run) -> None:
    D.install()
    items = []
    depth = 4 if run.thorough else 3
    for d in D.DIALECTS:
        modes = {"postgresql": [Mode(), Mode(enum="relation", initialize=True)], "mysql": [Mode(), Mode(enum="relation")],
                 "mssql": [Mode(initialize=True)], "oracle": [Mode(initialize=True)]}[d]
        for mode in modes:
            for m in NAMES:
                os = [o for a, o in pairs(d) if a == m]
                for known in ("unknown", "known", "listed"):
                    configs = []
                    if run.thorough:
                        configs = [Config(d, mode, m, (o,), known) for o in os]
                    if len(os) > 1:
                        configs.append(Config(d, mode, m, tuple(o for o in os if not (d in ("mssql", "mysql") and o == "A")), known))
                    items.append((configs, depth if known == "unknown" else depth - 1))
            for m in SPECIAL:
                items.append(([Config(d, mode, m, SIMILAR, "unknown")], depth))
    run.bounds = {"operations": len(list(operations(Config("mysql", Mode(), "a", (), "unknown")))), "depth": depth, "names": NAMES + SPECIAL,
                  "configurations": sum(len(i[0]) for i in items)}
    items.sort(key=lambda i: -len(i[0]))
    parallel(run, work, items)
