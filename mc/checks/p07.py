"""
P07: every record reaches the database exactly once and in order.

Sources of every length up to several batches, of every kind, are written with every operation through the real library to
stand-ins for the native drivers, which record the rows that they are given. Failures of the source and of the database are
injected at every position.
"""

import collections
import copy
import itertools
from dataclasses import dataclass
from typing import Any, AsyncIterator, Iterator, Optional

import aiomysql
import redshift_connector

from pysqlsync import base
from pysqlsync.connection import ConnectionParameters
from pysqlsync.factory import get_dialect

from ..core import Run, parallel
from ..db import drivers as D
from ..db import world as W
from ..db.universe import DEFAULT_SCHEMA, FLAT, C, E, F, M, Mode, Version, build, options

LEVEL = "model_checking"
RULE = (
    "dialect x operation x batch size x length of the source x kind of source x selection and order of fields x position of a "
    "failure of the source or of the database; non-trivial = a distinct combination"
)
ASSUMPTIONS = [
    "stand-ins for the native drivers record the rows of each call and execute them on a model of the server",
    "Amazon Redshift: COPY reads fields delimited by a vertical bar, \\N as NULL, and a backslash as an escape only if ESCAPE is given",
]

DIALECTS = ("postgresql", "mysql", "mssql", "oracle", "redshift")
ITEM = E("Zitem", ("x", "y", "z"))
ENTITY = C("T", (F("id", ("int", 8), key="primary"), F("a", ("int", 8), opt=True), F("b", ("str",), opt=True),
                 F("e", ("enum", "app", "Zitem"), opt=True)))
VERSION: Version = (M("app", (ITEM, ENTITY)),)
FIELDS = ("id", "a", "b", "e")
TEXTS = ("it's", "p|q\\n", "l\nm", "", "\\N", "a;b,c\t")
LABELS = ("x", "y", "z")

ROW_OPS = ("insert_rows", "upsert_rows")
DATA_OPS = ("insert_data", "upsert_data")
KEY_OPS = ("delete_rows", "delete_data")


class SourceError(Exception):
    pass


@dataclass(frozen=True)
class Selection:
    order: tuple[int, ...]  # position of each column in the record
    skip: tuple[str, ...]  # columns left out
    style: str  # how: type, name, both; implicit if there are no field names
    extra: bool = False  # a further field at the front that belongs to no column

    def types(self) -> tuple[type, ...]:
        kinds: dict[str, type] = {"id": int, "a": int, "b": str, "e": str}
        out = [type(None) if FIELDS[i] in self.skip and self.style != "name" else kinds[FIELDS[i]] for i in self.order]
        return tuple([type(None)] * self.extra + out)

    def names(self) -> Optional[tuple[str, ...]]:
        if self.style == "implicit":
            return None
        out = ["" if FIELDS[i] in self.skip and self.style != "type" else FIELDS[i] for i in self.order]
        return tuple([""] * self.extra + out)

    def record(self, row: tuple) -> tuple:
        out = ["unused" if FIELDS[i] in self.skip else row[i] for i in self.order]
        return tuple(["unused"] * self.extra + out)

    def delivered(self, row: tuple) -> tuple:
        return tuple(row[i] for i in self.order if FIELDS[i] not in self.skip)

    def stored(self, row: tuple) -> tuple:
        return tuple(None if FIELDS[i] in self.skip else row[i] for i in range(len(row)))


PLAIN = Selection((0, 1, 2, 3), (), "type")


def selections(thorough: bool) -> Iterator[Selection]:
    skips = [s for n in range(4) for s in itertools.combinations(FIELDS[1:], n)]
    orders = list(itertools.permutations(range(4))) if thorough else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)]
    for skip in skips:
        for style in ("type", "name", "both"):
            for order in orders:
                for extra in (False, True):
                    if thorough or not extra or order == orders[1]:
                        yield Selection(order, skip, style, extra)
        yield Selection((0, 1, 2, 3), skip, "implicit")


def rows(n: int, false: Optional[bool] = None, first: int = 1) -> list[tuple]:
    out: list[tuple] = []
    for i in range(n):
        if i == 0 and (n % 2 if false is None else false):
            out.append((0, 0, "", None))  # a record whose values are all false
            continue
        out.append((first + i, None if i % 3 == 1 else 100 + i, None if i % 4 == 2 else TEXTS[i % len(TEXTS)],
                    None if i % 5 == 3 else LABELS[i * 2 % 3]))
    return out


class Once:
    "An iterable that can be iterated over once, notes what has been taken, and may fail."

    def __init__(self, items: list, fail: Optional[int]) -> None:
        self.items, self.fail = items, fail
        self.taken = 0
        self.started = 0

    def __iter__(self) -> Iterator:
        self.started += 1
        for i in range(len(self.items) + 1):
            if i == self.fail:
                raise SourceError("the source fails")
            if i < len(self.items):
                self.taken += 1
                yield self.items[i]


def source(kind: str, items: list, fail: Optional[int]) -> tuple[Any, Optional[Once]]:
    once = Once(items, fail)
    if kind == "list":
        return list(items), None
    if kind == "tuple":
        return tuple(items), None
    if kind == "deque":
        return collections.deque(items), None
    if kind == "iterable":
        return once, once
    if kind == "generator":
        return iter(once), once

    async def generate() -> AsyncIterator:
        for i in once:
            yield i

    return generate(), once


LAZY = ("iterable", "generator", "async")
ALL_KINDS = ("list", "tuple", "deque", *LAZY)


# Amazon Redshift -----------------------------------------------------------------------


class RedshiftServer:
    "Keeps rows that it is sent."

    def __init__(self) -> None:
        self.log: list = []
        self.before: Any = None
        self.items: dict[str, int] = {}  # lookup table


REDSHIFT: Any = None


class RedshiftCursor:
    def __init__(self, native: Any) -> None:
        self.native = native
        self.server = REDSHIFT

    def keep(self, entry: tuple) -> None:
        (self.server.log if self.native.autocommit else self.native.pending).append(entry)

    def __enter__(self) -> Any:
        return self

    def __exit__(self, *args: Any) -> None:
        pass

    def close(self) -> None:
        pass

    def execute(self, sql: str, args: Any = None, stream: Any = None) -> Any:
        if self.server.before:
            self.server.before("copy", sql)
        self.description = [("value",), ("id",)]
        if stream is not None:
            self.keep(("copy", (sql, decode_copy(sql, stream.read()))))
        return self

    def fetchall(self) -> list:
        return list(self.server.items.items())

    def executemany(self, sql: str, params: Any) -> Any:
        if self.server.before:
            self.server.before("many", sql)
        params = list(params)
        if "Zitem" in sql:
            for (value,) in params:
                self.server.items.setdefault(value, len(self.server.items) + 1)
        self.keep(("many", (sql, [tuple(r) for r in params])))
        return self


class RedshiftNative:
    def __init__(self) -> None:
        self.autocommit = False
        self.pending: list = []  # of a transaction

    def cursor(self) -> Any:
        return RedshiftCursor(self)

    def commit(self) -> None:
        REDSHIFT.log.extend(self.pending)
        self.pending = []

    def rollback(self) -> None:
        self.pending = []

    def close(self) -> None:
        pass


def decode_copy(sql: str, data: bytes) -> list[tuple]:
    "Reads the stream as the server does."

    options = sql.upper().split("FROM STDIN", 1)[1].replace(";", " ").split()
    escape = "ESCAPE" in options
    text = data.decode("utf-8")
    out: list[tuple] = []
    field, fields, i = "", [], 0
    while i < len(text):
        c = text[i]
        if c == "\\" and i + 1 < len(text) and text[i + 1] == "N" and field == "" and text[i + 2 : i + 3] in ("|", "\n", ""):
            field, i = None, i + 2  # type: ignore
            continue
        if c == "\\" and escape and i + 1 < len(text):
            field, i = field + text[i + 1], i + 2
            continue
        if c == "|":
            fields.append(field)
            field = ""
        elif c == "\n":
            out.append(tuple([*fields, field]))
            field, fields = "", []
        else:
            field += c
        i += 1
    if fields or field:
        raise Wrong("the stream ends within a row")
    return out


class Wrong(Exception):
    pass


# runs ----------------------------------------------------------------------------------


def lengths(size: int, thorough: bool) -> range:
    return range(0, (3 if thorough else 2) * size + 2)


def cases(op: str, thorough: bool) -> Iterator[tuple]:
    "(batch size, length, kind of source, selection, failure)"

    kinds = ALL_KINDS if op in ROW_OPS or op == "execute_all" else tuple(k for k in ALL_KINDS if k != "async")
    for size in (1, 2, 3, 4) if thorough else (1, 2, 3):
        for n in lengths(size, thorough):
            for kind in kinds:
                yield size, n, kind, PLAIN, None
                if kind in LAZY:
                    for k in range(n + 1):
                        yield size, n, kind, PLAIN, ("source", k)
            for kind in ("generator", "async") if "async" in kinds else ("list", "generator"):
                for j in range(3 * n + 1):
                    yield size, n, kind, PLAIN, ("database", j)
            if op in ROW_OPS:
                for s in selections(thorough):
                    for kind in ("list", "generator", "async") if thorough else ("generator", "async"):
                        if thorough or (n in (size, size + 1)):
                            yield size, n, kind, s, None
                            if thorough or size == 2:
                                yield size, n, kind, s, ("source", n)


def explore(run: Run) -> None:
    D.install()
    items = []
    for d in DIALECTS:
        for op in (*ROW_OPS, *DATA_OPS, *KEY_OPS, "execute_all"):
            for mode in ("relation", None) if d != "redshift" else (None,):
                for i in range(4 if op in ROW_OPS else 1):
                    items.append((d, op, mode, i, 4 if op in ROW_OPS else 1))
    run.bounds = {"batch sizes": "1..4" if run.thorough else "1..3", "batches": 3 if run.thorough else 2, "operations": 7}
    parallel(run, work, items)


def work(run: Run, item: tuple) -> None:
    global REDSHIFT
    dialect, op, enum_mode, part, parts = item
    mode = Mode(enum=enum_mode)
    modules = build(VERSION)
    cls = modules["app"].T
    label_of = modules["app"].Zitem
    relational = dialect in ("mssql", "oracle", "redshift") or enum_mode == "relation"
    prepared: dict[int, Any] = {}
    if dialect == "redshift":
        server: Any = RedshiftServer()
        REDSHIFT = server
        redshift_connector.connect = lambda **kw: RedshiftNative()  # type: ignore
    else:
        session = W.Session(dialect)
        server = session.server
        session.create(VERSION, mode)
        clean = server.db.copy()
    if dialect == "mysql":
        record_mysql(server)
    states: list = []
    schema = DEFAULT_SCHEMA.get(dialect) if dialect in FLAT else "app"
    prefix = "app__" if dialect in FLAT else ""

    def connect() -> Any:
        if dialect == "redshift":
            params = ConnectionParameters("h", None, "u", "p", "db", None)
            return get_dialect(dialect).create_connection(params, options(VERSION, mode))
        return D.connect(dialect, options(VERSION, mode))

    def tab(name: str) -> Any:
        return server.db.schemas[schema].tables[prefix + name]

    async def operate(ctx: Any, data: list[tuple], selection: Selection, kind: str, fail: Optional[int]) -> Any:
        if op in ROW_OPS:
            src, once = source(kind, [selection.record(r) for r in data], fail)
            extra = {} if selection.names() is None else {"field_names": selection.names()}
            await_on = getattr(ctx, op)(ctx.get_table(cls), src, field_types=selection.types(), **extra)
        elif op in DATA_OPS:
            objects = [cls(r[0], r[1], r[2], None if r[3] is None else label_of(r[3])) for r in data]
            src, once = source(kind, objects, fail)
            await_on = getattr(ctx, op)(cls, src)
        elif op == "delete_rows":
            src, once = source(kind, [r[0] for r in data], fail)
            await_on = ctx.delete_rows(ctx.get_table(cls), int, src)
        elif op == "delete_data":
            src, once = source(kind, [r[0] for r in data], fail)
            await_on = ctx.delete_data(cls, src)
        else:
            table = ctx.get_table(cls)
            order = ("id", "a", "b")
            src, once = source(kind, [r[:3] for r in data], fail)
            await_on = ctx.execute_all(ctx.connection.generator.get_table_insert_stmt(table, order), src)
        try:
            await await_on
        except Exception as e:
            return once, e
        return once, None

    async def one(size: int, n: int, kind: str, selection: Selection, failure: Any) -> None:
        data = rows(n, True if op in KEY_OPS else None)
        if dialect != "redshift":
            if op in KEY_OPS:
                if size not in prepared or prepared[size][0] < n:
                    server.db.restore(clean)
                    t = tab("T")
                    for r in rows(n + 1, True):
                        t.rows.append(dict(zip(FIELDS, (*r[:3], None))))
                    prepared[size] = (n, server.db.copy())
                server.db.restore(prepared[size][1])
            else:
                server.db.restore(clean)
            server.touch()
        calls: list[str] = []
        fault = failure[1] if failure is not None and failure[0] == "database" else None

        def before(what: str, text: str) -> None:
            calls.append(text)
            if len(calls) - 1 == fault:
                raise D.Fault("the connection is lost")

        base.BATCH_SIZE = size
        async with connect() as ctx:
            if not states:
                states.append(ctx.connection.generator.converter.modules_to_catalog([modules["app"]]))
            ctx.connection.generator.state = copy.deepcopy(states[0])
            mark = len(server.log)
            server.before = before
            try:
                once, error = await operate(ctx, data, selection, kind, failure[1] if failure and failure[0] == "source" else None)
            finally:
                server.before = None
            log = server.log[mark:]
        run.transition(len(calls))

        # rows that the driver has been given, batch by batch
        batches: list[list[tuple]] = []
        for what, detail in log:
            if what == ("bulk" if dialect == "mysql" else "many"):
                sql, chunk = detail
                if "Zitem" not in sql:
                    batches.append(chunk)
            elif what == "copy":
                batches.append(detail[-1])
        given = [r for b in batches for r in b]
        for b in batches:
            if not b or len(b) > size:
                raise Wrong(f"a batch has {len(b)} records")

        # outcome
        injected = failure is not None and (failure[0] == "source" or len(calls) > failure[1])
        if failure is None and error is not None:
            raise Wrong(f"fails: {W.error_head(error)} {W.cause(error)!r:.200}")
        if injected:
            if error is None:
                raise Wrong("the failure goes unnoticed")
            chain, e = [], error
            while e is not None:
                chain.append(e)
                e = e.__cause__ or e.__context__
            if not any(isinstance(e, (SourceError, D.Fault)) for e in chain):
                raise Wrong(f"fails with {error!r:.200}")
            if failure[0] == "database" and len(calls) > failure[1] + 1:
                raise Wrong(f"goes on after the failure with {calls[failure[1] + 1]!r:.80}")
            limit = failure[1] if failure[0] == "source" else n
            if len(given) > limit or (len(given) % size and len(given) != n):
                raise Wrong(f"{len(given)} records delivered of {n}")
        elif error is not None:
            raise Wrong(f"fails: {error!r:.200}")
        elif len(given) != n:
            raise Wrong(f"{len(given)} records delivered of {n}")
        if once is not None and (once.started > 1 or once.taken > n):
            raise Wrong(f"source started {once.started} times, {once.taken} taken of {n}")
        if once is not None and error is None and n and once.taken != n:
            raise Wrong(f"{once.taken} taken of {n}")

        # content
        names: dict[Any, Any] = {}
        if dialect == "redshift":
            names = {i: v for v, i in server.items.items()} if relational else {}
        elif relational:
            names = {r["id"]: r["value"] for r in tab("Zitem").rows}
        if op in KEY_OPS:
            want = [(r[0],) for r in data]
        elif op == "execute_all":
            want = [r[:3] for r in data]
        else:
            want = [selection.delivered(r) for r in data]
        columns = [FIELDS[i] for i in selection.order if FIELDS[i] not in selection.skip] if op in (*ROW_OPS, *DATA_OPS) else []
        for i, (have, need) in enumerate(zip(given, want)):
            if len(have) != len(need):
                raise Wrong(f"record {i} is {have!r}, not {need!r}")
            for k, (h, w) in enumerate(zip(have, need)):
                if columns and columns[k] == "e" and relational:
                    h = None if h is None else names.get(int(h) if str(h).isdigit() else h, f"?{h}")
                if dialect == "redshift" and isinstance(h, str) and not isinstance(w, str) and w is not None:
                    h = type(w)(h)
                if h != w or (h is None) != (w is None):
                    raise Wrong(f"record {i} is {have!r}, not {need!r}")
        if dialect != "redshift":
            stored = [(r["id"], r["a"], r["b"], names.get(r["e"], r["e"]) if r["e"] is not None else None) for r in tab("T").rows]
            if op in KEY_OPS:
                left = [r[0] for r in rows(prepared[size][0] + 1, True)]
                # a driver may delete part of the batch that meets with a failure
                most = size if injected and failure[0] == "database" and dialect == "mysql" else 0
                if not any([r[0] for r in stored] == left[len(given) + extra :] for extra in range(most + 1)):
                    raise Wrong(f"records left: {[r[0] for r in stored]!r}")
            else:
                skipped = selection if op in ROW_OPS else PLAIN
                if op == "execute_all":
                    skipped = Selection((0, 1, 2, 3), ("e",), "type")
                need = [skipped.stored(r) for r in data[: len(given)]]
                if dialect == "oracle":  # where an empty string is NULL
                    need = [tuple(None if v == "" else v for v in r) for r in need]
                if [tuple(r) for r in stored] != need:
                    raise Wrong(f"stored {stored!r:.300}, not {need!r:.300}")
        run.state((dialect, op, enum_mode, tuple(map(len, batches)), error is None))

    for i, (size, n, kind, selection, failure) in enumerate(cases(op, run.thorough)):
        if i % parts != part:
            continue
        try:
            if dialect == "redshift":
                D.run(one(size, n, kind, selection, failure))
            else:
                with D.using(server):
                    D.run(one(size, n, kind, selection, failure))
        except Wrong as e:
            what = "whole" if failure is None else failure[0]
            run.violation(f"{dialect}/{op}/{'lookup' if relational else 'plain'}/{what}/{short(str(e))}",
                          f"{dialect} {op}, batches of {size}, {n} records from {kind}, {selection}, failure {failure}: {e}",
                          {"dialect": dialect, "operation": op, "enum_mode": enum_mode, "batch_size": size, "records": n, "source": kind,
                           "selection": repr(selection), "failure": failure})
        run.trace()
        run.case((dialect, op, enum_mode, size, n, kind, selection, failure))
    run.sample({"dialect": dialect, "operation": op, "enum_mode": enum_mode})


def short(text: str) -> str:
    return "-".join("".join(c if c.isalpha() else " " for c in text).split()[:4])


def record_mysql(server: Any) -> None:
    "Has the rows that the driver's cursor is given written to the log."

    cursor = aiomysql.cursors.Cursor
    original = getattr(cursor, "_verif_executemany", cursor.executemany)
    cursor._verif_executemany = original

    async def executemany(self: Any, query: str, args: Any) -> Any:
        data = [tuple(r) for r in args]
        result = await original(self, query, data)
        server.log.append(("bulk", (query, data)))
        return result

    cursor.executemany = executemany
