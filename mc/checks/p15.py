"""
P15: database failures surface, and synchronisation can be retried from any point.

Faults are injected at every call to the database of every operation: ahead of the call (the server refuses it, the connection
is lost), and behind it (the call has taken effect, but the client does not learn). The real library runs on a model of each
database server, which undoes or keeps statements of a script that have been executed before as the server does.
"""

import asyncio
import copy
import functools
import re
import types
from typing import Any, Callable, Iterator, Optional

from pysqlsync.base import ClassRef, QueryException
from pysqlsync.data.exchange import fields_to_types
from pysqlsync.factory import get_dialect
from pysqlsync.model.id_types import LocalId

from ..core import Run, parallel
from ..db import drivers as D
from ..db import world as W
from ..db.explore import RETAINED, change, has_checks
from ..db.lexer import SqlError
from ..db.rows import populate
from ..db.universe import DEFAULT_SCHEMA, FLAT, C, E, Expected, F, M, Mode, Version, build, options
from .p04 import fillable, hard, image, migration_allowed, same, themes

LEVEL = "model_checking"
RULE = (
    "dialect x (operation or change between two schema versions) x call to the database x kind of failure x way of trying again; "
    "non-trivial = a distinct combination in which the failure takes place"
)
ASSUMPTIONS = [
    "a failed script leaves no effects on PostgreSQL (a script is a transaction), its earlier statements on MySQL and Oracle, and "
    "on SQL Server what the transaction of the connection retains",
    "a failure while a connection is opened need not name a statement",
]


class Timeout(D.Fault, asyncio.TimeoutError, OSError):
    "The server does not answer."


KINDS: dict[str, Callable[[], Exception]] = {
    "refused": lambda: SqlError("injected failure"),
    "lost": lambda: D.Fault("injected failure"),
    "timeout": lambda: Timeout("injected failure"),
}


@functools.lru_cache(maxsize=None)
def native(dialect: str) -> dict[str, Callable[[], Exception]]:
    "Errors as the native driver raises them."

    import asyncpg
    import oracledb
    import pymysql
    import pyodbc

    kinds: dict[str, list[tuple[type, tuple]]] = {
        "postgresql": [(getattr(asyncpg, name), ()) for name in (
            "ConnectionDoesNotExistError", "InterfaceError", "DeadlockDetectedError", "SerializationError", "UniqueViolationError",
            "DuplicateTableError", "DuplicateObjectError", "UndefinedTableError", "UndefinedObjectError", "InvalidSchemaNameError",
            "InsufficientPrivilegeError", "QueryCanceledError", "FeatureNotSupportedError")],
        "mysql": [(getattr(pymysql.err, name), (code,)) for name, code in (
            ("OperationalError", 2013), ("OperationalError", 2006), ("OperationalError", 1213), ("OperationalError", 1205), ("IntegrityError", 1062),
            ("OperationalError", 1050), ("ProgrammingError", 1146), ("OperationalError", 1091), ("OperationalError", 1060), ("OperationalError", 1142),
            ("InterfaceError", 0), ("InternalError", 1054), ("NotSupportedError", 1235), ("DataError", 1406))],
        "mssql": [(getattr(pyodbc, name), (code,)) for name, code in (
            ("OperationalError", "08S01"), ("Error", "40001"), ("IntegrityError", "23000"), ("ProgrammingError", "42S01"),
            ("ProgrammingError", "42S02"), ("ProgrammingError", "42000"), ("OperationalError", "HYT00"), ("DataError", "22001"), ("InterfaceError", "IM002"))],
        "oracle": [(getattr(oracledb, name), (code,)) for name, code in (
            ("OperationalError", "DPY-4011:"), ("InterfaceError", "DPY-1001:"), ("DatabaseError", "ORA-00060:"), ("IntegrityError", "ORA-00001:"),
            ("DatabaseError", "ORA-00942:"), ("DatabaseError", "ORA-00955:"), ("DatabaseError", "ORA-02289:"), ("DatabaseError", "ORA-01031:"),
            ("NotSupportedError", "DPY-3001:"), ("OperationalError", "ORA-03113:"))],
    }
    out: dict[str, Callable[[], Exception]] = {}
    for base, args in kinds[dialect]:
        cls = types.new_class(f"Injected{base.__name__}", (D.Fault, base), exec_body=lambda ns: ns.update(__module__=__name__, sqlstate=None))
        label = "-".join([base.__name__, *(str(a).strip(":") for a in args)])
        text = ("injected failure",) if dialect != "oracle" else ()
        values = (*args, *text) if text else (f"{args[0]} injected failure",)
        out[label] = functools.partial(cls, *values)
    return out


def flat(sql: str) -> str:
    return re.sub(r"\s+", " ", sql).strip().rstrip("; ")


class Injector:
    "Counts calls to the database, and has one fail."

    def __init__(self, server: D.Server, index: Optional[int], make: Callable[[], Exception], behind: bool = False) -> None:
        self.server, self.index, self.make, self.behind = server, index, make, behind
        self.calls: list[tuple[str, str]] = []
        self.done = False

    def before(self, kind: str, text: str) -> None:
        self.calls.append((kind, text))
        if not self.behind and len(self.calls) - 1 == self.index:
            self.done = True
            raise self.make()

    def after(self, kind: str, text: str) -> None:
        if self.behind and len(self.calls) - 1 == self.index:
            self.done = True
            raise D.Fault("injected failure")

    def __enter__(self) -> "Injector":
        self.server.before, self.server.after = self.before, self.after
        return self

    def __exit__(self, *args: Any) -> None:
        self.server.before = self.server.after = None

    def failed(self) -> tuple[str, str]:
        return self.calls[self.index]  # type: ignore


def unreported(injector: Injector, error: Optional[BaseException]) -> Optional[str]:
    "What is wrong with the way in which an operation reports a failure."

    kind, text = injector.failed()
    if error is None:
        return "unnoticed: the operation succeeds"
    chain, e = [], error
    while e is not None:
        chain.append(e)
        e = e.__cause__  # type: ignore
    if not any("injected failure" in str(x) for x in chain):
        return f"no cause: {error!r:.200} does not lead to the error of the database"
    if not isinstance(error, QueryException):
        return f"not named: {type(error).__name__} does not name the statement"
    query = flat(error.query)
    if kind == "copy":
        if text.split()[-1].strip('"') not in query:
            return f"not named: {query!r:.200}"
    else:
        head = flat(text).split(" VALUES ")[0] if kind != "query" else flat(text)
        if head not in query and not re.match(r"DELETE|UPDATE|MERGE", head):
            return f"not named: {query!r:.200} instead of {head!r:.200}"
    if len(injector.calls) > injector.index + 1:  # type: ignore
        return f"goes on with {injector.calls[injector.index + 1]!r:.200}"  # type: ignore
    return None


# operations ----------------------------------------------------------------------------

ITEM = E("E", ("x", "y"))
GROUP = C("G", (F("id", ("int", 8), key="primary"), F("name", ("str", 20))), "Groups.")
ENTITY = C("T", (F("id", ("int", 8), key="primary"), F("n", ("int", 8), opt=True, doc="Number."), F("s", ("str",), opt=True),
                 F("e", ("enum", "app", "E"), opt=True), F("g", ("ref", "app", "G"), opt=True)))
MORE = C("T", (*ENTITY.fields, F("m", ("int", 4), opt=True), F("d", ("int", 8), default=1)))
VERSION: Version = (M("app", (ITEM, GROUP, ENTITY)),)
LARGER: Version = (M("app", (ITEM, GROUP, MORE, C("U", (F("id", ("int", 8), key="primary"), F("t", ("ref", "app", "T")))))),)
SMALLER: Version = (M("app", (GROUP,)),)


def operations(dialect: str) -> Iterator[tuple[str, bool, Version, Callable]]:
    "(name, starts with the schema, version, operation)"

    async def synchronize(ctx: Any, modules: dict) -> None:
        await get_dialect(dialect).create_explorer(ctx).synchronize(modules=list(modules.values()))

    async def discover(ctx: Any, modules: dict) -> None:
        await get_dialect(dialect).create_explorer(ctx).discover(modules=list(modules.values()))

    async def create(ctx: Any, modules: dict) -> None:
        await ctx.create_objects([modules["app"].G, modules["app"].T])

    async def drop(ctx: Any, modules: dict) -> None:
        await ctx.drop_objects()

    async def schema(ctx: Any, modules: dict) -> None:
        await ctx.create_schema(LocalId("other"))
        await ctx.drop_schema(LocalId("other"))

    async def drop_schema(ctx: Any, modules: dict) -> None:
        await ctx.drop_schema(LocalId("app"))

    async def drop_table(ctx: Any, modules: dict) -> None:
        await ctx.drop_table_if_exists(ctx.get_table_id(ClassRef(modules["app"].T)))

    async def query(ctx: Any, modules: dict) -> None:
        table = ctx.get_table(modules["app"].G)
        await ctx.query_all(tuple[int, str], f'SELECT "id", "name" FROM {table.name}')
        await ctx.query_one(int, f'SELECT "id" FROM {table.name}')
        await ctx.query_all(modules["app"].G, f'SELECT "id", "name" FROM {table.name}')

    async def schemas(ctx: Any, modules: dict) -> None:
        await ctx.current_schema()

    async def inspect(ctx: Any, modules: dict) -> None:
        explorer = get_dialect(dialect).create_explorer(ctx)
        name = ctx.get_table_id(ClassRef(modules["app"].T))
        for call in (explorer.get_table_names, lambda: explorer.has_table(name), lambda: explorer.has_column(name, LocalId("n")),
                     lambda: explorer.get_table(name), explorer.get_namespace_current):
            try:
                await call()
            except (NotImplementedError, QueryException) as e:
                if not isinstance(e, NotImplementedError):
                    raise

    yield "synchronize-new", False, VERSION, synchronize
    yield "synchronize-again", True, VERSION, synchronize
    yield "synchronize-larger", True, LARGER, synchronize
    yield "synchronize-smaller", True, SMALLER, synchronize
    yield "discover", True, VERSION, discover
    yield "create_objects", False, VERSION, create
    yield "drop_objects", True, VERSION, drop
    yield "create_schema", False, VERSION, schema
    yield "drop_schema", True, VERSION, drop_schema
    yield "drop_table", True, VERSION, drop_table
    yield "query", True, VERSION, query
    yield "current_schema", True, VERSION, schemas
    yield "inspect", True, VERSION, inspect

    def rows(op: str) -> Callable:
        async def perform(ctx: Any, modules: dict) -> None:
            cls = modules["app"].T
            records = [(i, i, "s", "xyx"[i % 3], 1 if i % 2 else None) for i in range(11, 16)]
            if op.endswith("_rows"):
                types = fields_to_types(cls)
                await getattr(ctx, op)(ctx.get_table(cls), records, field_types=tuple(types.values()), field_names=tuple(types))
            else:
                labels = {"x": modules["app"].E("x"), "y": modules["app"].E("y")}
                await getattr(ctx, op)(cls, [cls(r[0], r[1], r[2], labels[r[3]], r[4]) for r in records])

        return perform

    for op in ("insert_rows", "upsert_rows", "insert_data", "upsert_data"):
        yield op, True, VERSION, rows(op)

    async def delete_rows(ctx: Any, modules: dict) -> None:
        await ctx.delete_rows(ctx.get_table(modules["app"].T), int, [1, 2, 3])

    async def delete_data(ctx: Any, modules: dict) -> None:
        await ctx.delete_data(modules["app"].T, [1, 2, 3])

    async def execute_all(ctx: Any, modules: dict) -> None:
        table = ctx.get_table(modules["app"].G)
        stmt = ctx.connection.generator.get_table_insert_stmt(table, ("id", "name"))
        await ctx.execute_all(stmt, [(7, "a"), (8, "b"), (9, "c")])

    yield "delete_rows", True, VERSION, delete_rows
    yield "delete_data", True, VERSION, delete_data
    yield "execute_all", True, VERSION, execute_all


def modes(dialect: str) -> list[Mode]:
    return {"postgresql": [Mode(), Mode(enum="relation"), Mode(enum="check")], "mysql": [Mode(), Mode(enum="relation")],
            "mssql": [Mode()], "oracle": [Mode()]}[dialect]


def explore(run: Run) -> None:
    D.install()
    items: list[tuple] = []
    for d in D.DIALECTS:
        items.extend(("operation", d, n, mode, initialize) for n in range(len(list(operations(d)))) for mode in modes(d)
                     for initialize in (False, True))
        for n, t in enumerate(themes(d, run.thorough)):
            items.extend(("change", d, n, i) for i in range(len(t.versions)))
    run.bounds = {"operations": len(list(operations("mysql"))), "failures": {d: len(KINDS) + len(native(d)) + 1 for d in D.DIALECTS},
                  "themes": {d: {t.name: len(t.versions) for t in themes(d, run.thorough)} for d in D.DIALECTS}}
    items.sort(key=lambda i: i[0])
    parallel(run, work, items)


def work(run: Run, item: tuple) -> None:
    if item[0] == "operation":
        operation(run, *item[1:])
    else:
        changes(run, *item[1:])


def operation(run: Run, dialect: str, n: int, mode: Mode, initialize: bool) -> None:
    mode = Mode(enum=mode.enum, initialize=initialize)
    name = list(operations(dialect))[n][0]
    if name in ("synchronize-again", "synchronize-larger") and mode.enum == "check":
        return  # recorded finding of P02: check constraints are not discovered
    if name == "create_schema" and dialect in FLAT:
        return  # there are no schemas other than databases and users
    name, ready, version, perform = list(operations(dialect))[n]
    session = W.Session(dialect)
    server = session.server
    if ready:
        session.create(VERSION, mode)
        populate(server.db, 3, False, Expected(VERSION, dialect, mode).lookup, {(t.schema, t.name) for t in server.db.tables()})
    from pysqlsync import base

    base.BATCH_SIZE = 2
    clean = server.db.copy()

    async def create_all(ctx: Any, modules: dict) -> None:
        await ctx.create_objects([getattr(modules["app"], c.name) for c in version[0].items if isinstance(c, C)])

    def attempt(injector: Injector, again: Optional[Callable]) -> tuple[Optional[Exception], Any]:
        "The error of the operation, and the outcome of the second attempt on the same connection."

        server.db.restore(clean)
        server.touch()

        async def action(ctx: Any, modules: dict) -> Any:
            generator = ctx.connection.generator
            if ready:
                knowing = get_dialect(dialect).create_generator(options(VERSION, mode))
                knowing.create(modules=[build(VERSION)["app"]])
                generator.state = knowing.state
            error = None
            with injector:
                try:
                    await perform(ctx, modules)
                except Exception as e:
                    error = e
            second: Any = None
            if again is not None and error is not None:
                try:
                    await again(ctx, modules)
                    second = "done"
                except Exception as e:
                    second = e
            return error, second

        return session.run(version, mode, action)

    kinds = {**KINDS, **native(dialect)}
    whole = Injector(server, None, KINDS["lost"])
    error, _ = attempt(whole, None)
    if error is not None:
        cause = W.cause(error)
        run.violation(f"{dialect}/{name}/{mode.enum}/fails", f"{name} fails: {error!r} {cause!r}", {"operation": name, "dialect": dialect})
        return
    desired, desired_schema = session.state(True), session.state()
    run.case(None, "without failure")
    for k in range(len(whole.calls)):
        for what in (*kinds, "after"):
            injector = Injector(server, k, kinds.get(what, KINDS["lost"]), what == "after")
            label = f"{dialect}/{name}/{mode.enum or 'default'}/{what}"
            replay = {"dialect": dialect, "operation": name, "mode": repr(mode), "call": k, "failure": what, "calls": repr(whole.calls[: k + 1])[-1000:]}
            error, second = attempt(injector, perform if what in KINDS or what == "after" else None)
            run.transition(len(injector.calls))
            run.trace()
            run.state((dialect, name, session.state(True)))
            run.case((dialect, name, mode, k, what), f"{name} {type(error).__name__}")
            if not injector.done:
                run.violation(f"{label}/not-reached", f"call {k} of {name} does not take place", replay)
                continue
            # the client learns of an effect that has taken place only if the call is the last of a request
            problem = unreported(injector, error)
            if problem is not None:
                run.violation(f"{label}/{problem.split(':')[0].split(' with')[0]}", f"{name}, call {k} {injector.failed()!r:.300}, {what}: {problem}", replay)
            if name in ("create_objects", "drop_objects") or name.startswith("synchronize"):
                # trying again over the same connection either fails or does what the operation does
                if second == "done" and session.state() == desired_schema and session.state(True) != desired:
                    run.violation(f"{dialect}/{name}/initial-values", f"{name}, call {k} {injector.failed()!r:.300}, {what}: the second attempt "
                                  "succeeds, and lookup tables lack initial values", replay)
                elif second == "done" and session.state() != desired_schema:
                    run.violation(f"{label}/again", f"{name}, call {k} {injector.failed()!r:.300}, {what}: the second attempt succeeds "
                                  f"with {session.structure()!r:.600}", replay)
            if name.startswith("synchronize") and (what in KINDS or what == "after"):
                # creating what is missing over the same connection likewise
                injector = Injector(server, k, kinds.get(what, KINDS["lost"]), what == "after")
                _, second = attempt(injector, create_all)
                if second == "done" and session.state() != desired_schema:
                    run.violation(f"{label}/created-instead", f"{name}, call {k} {injector.failed()!r:.300}, {what}: creating the objects instead "
                                  f"succeeds with {session.structure()!r:.600}", replay)


# changes of the schema -----------------------------------------------------------------


def changes(run: Run, dialect: str, n: int, i: int) -> None:
    theme = themes(dialect, run.thorough)[n]
    v, mode = theme.versions[i], theme.mode_of(i)
    before = Expected(v, dialect, mode)
    session = W.Session(dialect)
    server = session.server
    try:
        session.sync(v, mode)
        if W.compare(session, v, mode, ()):
            return  # reported by P01
    except Exception:
        return  # reported by P01
    if has_checks(theme, i):
        return
    empty = server.db.copy()
    targets = [j for j in range(len(theme.versions)) if j != i and migration_allowed(theme, i, j) and not has_checks(theme, j)]
    if not run.thorough:
        count = len(theme.versions)
        targets = [j for j in targets if (j - i) % count in (1, count - 1, count // 2) or theme.name.startswith("lookup")]
    for j in targets:
        w, m = theme.versions[j], theme.mode_of(j)
        after = Expected(w, dialect, m)
        if dialect in ("mssql", "oracle") and theme.name.startswith("lookup"):
            continue  # recorded finding of P04: values are not migrated
        gain, become = hard(before, after)
        server.db.restore(empty)
        server.touch()
        tables = {(t.schema, t.name) for t in server.db.tables()}
        populate(server.db, 3, False, before.lookup, fillable(tables - gain, after))
        base = server.db.copy()
        kept = image(base, before)
        whole = Injector(server, None, KINDS["lost"])
        try:
            with whole:
                session.sync(w, m)
        except Exception:
            continue  # reported by P01 or P04
        if W.compare(session, w, m, RETAINED):
            continue  # reported by P01
        seen: set = set()
        sig = f"{dialect}/{theme.name}/{change(theme, i, j) if theme.modes is None else f'{i}->{j}'}"
        for k in range(len(whole.calls)):
            for behind in (False, True):
                if behind and whole.calls[k][0] == "query":
                    continue
                one_change(run, session, base, kept, before, after, (v, mode), (w, m), k, behind, seen, sig, whole.calls, migration_allowed(theme, j, i))


def one_change(run: Run, session: W.Session, base: Any, kept: dict, before: Expected, after: Expected, source: tuple, target: tuple,
               k: int, behind: bool, seen: set, sig: str, calls: list, reversible: bool) -> None:
    server = session.server
    w, m = target
    replay = {"dialect": before.dialect, "versions": [repr(source[0]), repr(w)], "modes": [repr(source[1]), repr(m)], "call": k,
              "behind": behind, "rows": repr(kept), "calls": repr(calls[: k + 1])[-1500:]}

    def interrupt(again: Optional[str]) -> tuple[Optional[Exception], Any, Any]:
        "Interrupts a synchronisation, then repeats it over the same connection if asked to."

        server.db.restore(base)
        server.touch()
        injector = Injector(server, k, KINDS["lost"], behind)

        async def action(ctx: Any, modules: dict) -> Any:
            explorer = get_dialect(before.dialect).create_explorer(ctx)
            error: Optional[Exception] = None
            with injector:
                try:
                    await explorer.synchronize(modules=[modules[x.ns] for x in w])
                except Exception as e:
                    error = e
            state = str(ctx.connection.generator.state)
            second: Any = None
            if again:
                key = ("same", hash((state, repr(session.state(True)))))
                if key in seen:
                    return error, "seen", None
                seen.add(key)
                try:
                    await get_dialect(before.dialect).create_explorer(ctx).synchronize(modules=[modules[x.ns] for x in w])
                    second = "done"
                except Exception as e:
                    second = e
            return error, second, None

        with run.limit(sig):
            return session.run(w, m, action)

    def judge(outcome: Any, way: str, final: tuple, expected: Expected) -> None:
        run.transition()
        run.trace()
        run.state((before.dialect, session.state(True)))
        run.case((sig, k, behind, way), f"{before.dialect} {'done' if outcome == 'done' else 'error'}")
        if outcome != "done":
            return
        what = f"after {'the effect of ' if behind else ''}call {k} {calls[k]!r:.200}, {way}"
        for text in W.compare(session, final[0], final[1], RETAINED)[:1]:
            run.violation(f"{sig}/{way}/structure", f"{what}: {text}", replay)
            return
        now = image(server.db, expected)
        for t in kept:
            if t not in now:
                continue
            if set(kept[t]) != set(now[t]):
                run.violation(f"{sig}/{way}/{t[1]}/rows", f"{what}: rows of {t}: {sorted(kept[t])!r} became {sorted(now[t])!r}", replay)
                return
            for key, row in kept[t].items():
                for name, x in row.items():
                    if name in now[t][key] and name in shared.get(t, ()) and not same(x, now[t][key][name]):
                        run.violation(f"{sig}/{way}/{t[1]}.{name}/value", f"{what}: {t} row {key} column {name}: {x!r} became {now[t][key][name]!r}", replay)
                        return

    new = {(s, name): {c[0] for c in t["columns"]} for s, x in after.structure().items() for name, t in x["tables"].items()}
    shared = {t: new.get(t, set()) & {c for r in rows.values() for c in r} for t, rows in kept.items()}

    error, second, _ = interrupt("same")
    if second != "seen":
        judge(second, "again over the same connection", target, after)
    # with a new engine
    error, _, _ = interrupt(None)
    middle = server.db.copy()
    key = ("new", hash(repr(session.state(True))))
    if key in seen:
        return
    seen.add(key)
    for way, final, expected in (("again", target, after), ("back", source, before)):
        server.db.restore(middle)
        server.touch()
        if way == "back":
            if not reversible:
                continue
            dropped = {t for t in kept if t not in {(x.schema, x.name) for x in server.db.tables()}}
            if dropped:
                continue
        try:
            with run.limit(sig):
                session.sync(*final)
            outcome: Any = "done"
        except Exception as e:
            outcome = e
        judge(outcome, way, final, expected)
