"""
P13: query results are converted exactly or rejected.

Every combination of requested shape and result-set shape within the bounds goes through the real conversion functions
and, through a scripted driver, through the real `query_all`/`query_one`.
"""

import asyncio
import concurrent.futures
import contextlib
import dataclasses
import itertools
import typing
from dataclasses import dataclass
from typing import Any, Optional

import asyncpg
import aiomysql
import pyodbc

from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters
from pysqlsync.factory import get_dialect
from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_object, resultset_unwrap_tuple

from ..core import Run

LEVEL = "model_checking"
RULE = (
    "requested shape (4 scalars, tuples of 0-4 items, data classes of 1-3 fields, and unsupported shapes) x result-set "
    "columns (0-4, every order and subset of names, renamed, extra, missing) x 0-3 rows x row representation x "
    "container; x every pattern of NULL, zero and text over up to 3x2 cells; through the conversion functions and through query_all/query_one of six drivers; non-trivial = >=2 "
    "rows or a misfit"
)
ASSUMPTIONS = ["all rows of a result set have the same columns"]


@dataclass
class A1:
    a: int


@dataclass
class AB:
    a: int
    b: Optional[str]


@dataclass
class Cased:
    userName: int
    ID: Optional[str]
    plain_name: float


@dataclass
class ABC:
    a: int
    b: Optional[str]
    c: float


@dataclass
class AD:
    a: int
    b: str = "default"


CLASSES = [A1, AB, ABC, AD]
VALUES = [1, None, "x", "", 0, 2.5, b"\0", "y"]


class Row:
    "A row like that of pyodbc: sequence and attributes."

    def __init__(self, names, values):
        self._values = tuple(values)
        for n, v in zip(names, values):
            setattr(self, n, v)

    def __len__(self):
        return len(self._values)

    def __getitem__(self, i):
        return self._values[i]

    def __iter__(self):
        return iter(self._values)


class Record(dict):
    "A row like that of asyncpg: mapping by name and sequence by position."

    def __init__(self, names, values):
        super().__init__(zip(names, values))
        self._values = tuple(values)

    def __getitem__(self, i):
        return self._values[i] if isinstance(i, int) else super().__getitem__(i)

    def __len__(self):
        return len(self._values)

    def __iter__(self):
        return iter(self._values)


def rows_of(columns: int, count: int) -> list[tuple]:
    return [tuple(VALUES[(r * 3 + c) % len(VALUES)] for c in range(columns)) for r in range(count)]


CONTAINERS = {"list": list, "tuple": tuple, "generator": lambda rows: (r for r in rows)}


def outcome(fn, *args):
    try:
        return fn(*args), None
    except Exception as e:
        return None, e


def positional(run: Run, name: str, convert) -> None:
    "Requested: scalar or tuple; `convert(signature, names, rows)` returns (result, error)."

    shapes: list[tuple[Any, Optional[int], bool]] = [(t, 1, True) for t in (bool, int, float, str)]
    for n in range(1, 5):
        shapes.append((tuple.__class_getitem__(tuple([int, Optional[str], float, str][:n])), n, False))  # type: ignore
    shapes += [(list, None, False), (dict, None, False), (list[int], None, False), (bytes, None, False), (Any, None, False)]
    for (signature, width, scalar), columns, count in itertools.product(shapes, range(0, 5), range(0, 4)):
        names = ["a", "b", "c", "d"][:columns]
        rows = rows_of(columns, count)
        result, error = convert(signature, names, rows)
        sig = f"{name}/{getattr(signature, '__name__', signature)}-{width}/{columns}x{count}"
        replay = {"signature": repr(signature), "rows": rows, "result": repr(result), "error": repr(error)}
        run.transition()
        run.state(sig)
        run.case(sig if count > 1 or columns != width else None, "error" if error else f"{len(result)} rows")
        run.trace()
        if width is None:
            if error is None:
                run.violation(sig, f"unsupported signature accepted: {replay}", replay)
        elif count == 0:
            # an empty result set fits; a driver may also know its columns and reject it
            if error is None and list(result) != []:
                run.violation(sig, f"{replay}", replay)
            elif error is not None and columns == width:
                run.violation(sig, f"{replay}", replay)
        elif columns != width:
            if error is None:
                run.violation(sig, f"misfit accepted: {replay}", replay)
        else:
            expect = [r[0] for r in rows] if scalar else rows
            if error is not None or not equal(result, expect):
                run.violation(sig, f"expected {expect!r}: {replay}", replay)


def patterns(run: Run, name: str, convert, positional: bool, named: bool) -> None:
    "Requested shape fits; every pattern of values (NULL, zero, text) over all cells, including repeated and empty rows."

    for width, count in itertools.product((1, 2), range(1, 4)):
        names = ["a", "b"][:width]
        shapes: list[Any] = []
        if positional:
            shapes += [int, str, bool, float] if width == 1 else []
            shapes.append(tuple.__class_getitem__((int, str)[:width]))  # type: ignore
        if named:
            shapes += [A1 if width == 1 else AB]
        for cells in itertools.product((None, 0, "x"), repeat=width * count):
            rows = [tuple(cells[width * r : width * r + width]) for r in range(count)]
            for shape in shapes:
                result, error = convert(shape, names, rows)
                run.transition()
                run.case((name, width, cells, repr(shape)), "pattern")
                run.trace()
                if shape in (int, str, bool, float):
                    expect: list = [r[0] for r in rows]
                elif dataclasses.is_dataclass(shape):
                    expect = [shape(*r) for r in rows]
                else:
                    expect = rows
                if error is not None or not equal(result, expect):
                    replay = {"signature": repr(shape), "rows": rows, "result": repr(result), "error": repr(error)}
                    run.violation(f"{name}/pattern/{getattr(shape, '__name__', shape)}", f"expected {expect!r}: {replay}", replay)


def equal(a: Any, b: Any) -> bool:
    return isinstance(a, list) and len(a) == len(b) and all(type(x) is type(y) and x == y for x, y in zip(a, b))


def named(run: Run, name: str, convert) -> None:
    "Requested: data class."

    menu = ["a", "b", "c", "x"]
    for cls, n in itertools.product(CLASSES, range(1, 5)):
        fields = [f.name for f in dataclasses.fields(cls)]
        required = [f.name for f in dataclasses.fields(cls) if f.default is dataclasses.MISSING]
        for names, count in itertools.product(itertools.permutations(menu, n), range(0, 4)):
            rows = rows_of(n, count)
            result, error = convert(cls, list(names), rows)
            missing = [f for f in fields if f not in names]
            extra = [c for c in names if c not in fields]
            kind = "fit" if not missing and not extra else "+".join(
                (["missing-default"] if missing and not set(missing) & set(required) else ["missing"] if missing else [])
                + (["extra"] if extra else [])
            )
            sig = f"{name}/{kind}"
            replay = {"class": cls.__name__, "columns": names, "rows": rows, "result": repr(result), "error": repr(error)}
            run.transition()
            run.state((name, cls.__name__, names, count))
            run.case((name, cls.__name__, names, count) if count > 1 or kind != "fit" else None, (name, kind, error is None))
            run.trace()
            if kind == "fit":
                expect = [cls(**dict(zip(names, r))) for r in rows]
                if error is not None or not equal(result, expect):
                    run.violation(sig, f"expected {expect!r}: {replay}", replay)
            elif count == 0:
                if error is None and result != []:
                    run.violation(sig, f"{replay}", replay)
            elif kind == "missing-default":
                # the class itself says what an absent column stands for
                expect = [cls(**dict(zip(names, r))) for r in rows]
                if error is None and not equal(result, expect):
                    run.violation(sig, f"expected {expect!r}: {replay}", replay)
            elif error is None:
                run.violation(sig, f"misfit accepted: {replay}", replay)


def explore(run: Run) -> None:
    # the conversion functions
    for (cname, container), (rname, make) in itertools.product(
        CONTAINERS.items(),
        {
            "tuple": lambda names, r: tuple(r),
            "list": lambda names, r: list(r),
            "row": lambda names, r: Row(names, r),
        }.items(),
    ):
        positional(
            run, f"unwrap_tuple/{cname}-{rname}",
            lambda s, names, rows: outcome(resultset_unwrap_tuple, s, container([make(names, r) for r in rows])),
        )
        patterns(
            run, f"unwrap_tuple/{cname}-{rname}",
            lambda s, names, rows: outcome(resultset_unwrap_tuple, s, container([make(names, r) for r in rows])),
            True, False,
        )
    for cname, container in CONTAINERS.items():
        named(run, "unwrap_dict", lambda s, names, rows: outcome(resultset_unwrap_dict, s, container([dict(zip(names, r)) for r in rows])))
        named(run, "unwrap_object", lambda s, names, rows: outcome(resultset_unwrap_object, s, container([Row(names, r) for r in rows])))
        patterns(run, "unwrap_dict", lambda s, names, rows: outcome(resultset_unwrap_dict, s, container([dict(zip(names, r)) for r in rows])), False, True)
        patterns(run, "unwrap_object", lambda s, names, rows: outcome(resultset_unwrap_object, s, container([Row(names, r) for r in rows])), False, True)
        for bad in (int, tuple[int], list, dict):
            for fn in (resultset_unwrap_dict, resultset_unwrap_object):
                run.case((fn.__name__, str(bad)), "unsupported")
                if outcome(fn, bad, container([{"a": 1}]))[1] is None:
                    run.violation(f"{fn.__name__}/{bad}", "unsupported signature accepted")

    # the drivers
    for dialect, patch in PATCHES.items():
        by_name = dialect != "trino"  # has no data classes as requested shape
        for one in (False, True):
            def convert(signature, names, rows):
                return outcome(lambda: asyncio.run(query(dialect, patch, False, signature, names, rows)))

            if one:
                one_row(run, dialect, patch, by_name)
            else:
                positional(run, f"query_all/{dialect}", convert)
                patterns(run, f"query_all/{dialect}", convert, True, by_name)
                if by_name:
                    cased(run, dialect, patch)
                    named(run, f"query_all/{dialect}", convert)
                else:
                    result, error = convert(AB, ["a", "b"], [(1, "x")])
                    run.case((dialect, "data class"), error is None)
                    if error is None and not equal(result, [AB(1, "x")]):
                        run.violation(f"query_all/{dialect}/class", f"{result!r}")
    run.bounds = {"rows": 3, "columns": 4}


def cased(run: Run, dialect, patch) -> None:
    "Names in mixed case, which a query quotes or (in Oracle) does not quote."

    names = ("userName", "ID", "plain_name")
    rows = [(1, "x", 1.5), (2, None, 0.0)]
    patches = [patch] + ([lambda names, rows: patch_oracle(names, rows, False)] if dialect == "oracle" else [])
    for i, p in enumerate(patches):
        for order in itertools.permutations(range(3)):
            result, error = outcome(lambda: asyncio.run(query(dialect, p, False, Cased, [names[k] for k in order], [tuple(r[k] for k in order) for r in rows])))
            run.transition()
            run.case(("cased", dialect, i, order), error is None)
            if error is not None or not equal(result, [Cased(*r) for r in rows]):
                run.violation(f"query_all/{dialect}/mixed-case", f"{[names[k] for k in order]}: {result!r} {error!r}", {"order": order, "quoted": bool(i)})


def one_row(run: Run, dialect, patch, by_name: bool) -> None:
    for rows in ([], [(1, "x")], [(1, "x"), (2, "y")], [(None, "")]):
        for signature in (tuple[int, str], AB) if by_name else (tuple[int, str],):
            result, error = outcome(lambda: asyncio.run(query(dialect, patch, True, signature, ["a", "b"], rows)))
            sig = f"query_one/{dialect}/{len(rows)}"
            replay = {"rows": rows, "signature": repr(signature), "result": repr(result), "error": repr(error)}
            run.transition()
            run.case((sig, rows, repr(signature)), "error" if error else "one")
            run.trace()
            if not rows:
                if error is None:
                    run.violation(sig, f"no row: {replay}", replay)
            else:
                expect = rows[0] if signature is not AB else AB(*rows[0])
                if error is not None or result != expect or type(result) is not type(expect):
                    run.violation(sig, f"{replay}", replay)


async def query(dialect, patch, one, signature, names, rows):
    with patch(names, rows):
        engine = get_dialect(dialect)
        async with engine.create_connection(ConnectionParameters("h", 1, "u", "p", "d", None), GeneratorOptions()) as ctx:
            return await (ctx.query_one if one else ctx.query_all)(signature, "SELECT a, b FROM t")


@contextlib.contextmanager
def patch_postgresql(names, rows):
    class Native:
        def get_server_version(self):
            return type("V", (), {"major": 16, "minor": 0, "micro": 0, "releaselevel": "final"})()

        async def fetch(self, statement, *args):
            return [ARecord(names, r) for r in rows]

        async def close(self):
            pass

    async def connect(**kwargs):
        return Native()

    with patched(asyncpg, "connect", connect):
        yield


class ARecord:
    "Like asyncpg.Record, whose iteration yields values."

    def __init__(self, names, values):
        self._n, self._v = tuple(names), tuple(values)

    def items(self):
        return list(zip(self._n, self._v))

    def keys(self):
        return iter(self._n)

    def values(self):
        return iter(self._v)

    def get(self, name, default=None):
        return dict(self.items()).get(name, default)

    def __getitem__(self, i):
        return self._v[i] if isinstance(i, (int, slice)) else dict(self.items())[i]

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __contains__(self, name):
        return name in self._n


@contextlib.contextmanager
def patch_mysql(names, rows):
    class Cursor:
        def __init__(self, dictionary):
            self.dictionary = dictionary

        async def execute(self, statement, args=None):
            return len(rows)

        async def fetchall(self):
            if self.dictionary:
                return [dict(zip(names, r)) for r in rows]
            return tuple(tuple(r) for r in rows)

        async def close(self):
            pass

    class Opening:
        def __init__(self, cursor):
            self.cursor = cursor

        def __await__(self):
            async def get():
                return self.cursor

            return get().__await__()

        async def __aenter__(self):
            return self.cursor

        async def __aexit__(self, *args):
            return None

    class Native:
        def cursor(self, *classes):
            return Opening(Cursor(aiomysql.cursors.DictCursor in classes))

        def close(self):
            pass

    async def connect(**kwargs):
        return Native()

    with patched(aiomysql, "connect", connect):
        yield


@contextlib.contextmanager
def patch_mssql(names, rows):
    class Cursor:
        def execute(self, statement, *args):
            self.version = "@@VERSION" in statement
            return self

        def fetchall(self):
            return [Row(["v"], ["version"])] if self.version else [Row(names, r) for r in rows]

        def __enter__(self):
            return self

        def __exit__(self, *args):
            return None

        def close(self):
            pass

    class Native:
        def cursor(self):
            return Cursor()

        def close(self):
            pass

    with patched(pyodbc, "connect", lambda *a, **k: Native()), inline_threads():
        yield


class PlainCursor:
    "A cursor whose rows are plain sequences and which describes its columns (PEP 249)."

    def __init__(self, names, rows, upper: bool, make_all, make_row):
        self.rowfactory = None
        self.names, self.rows, self.upper = names, rows, upper
        self.make_all, self.make_row = make_all, make_row

    @property
    def description(self):
        # names that are not quoted in a query are in upper case in Oracle
        return [(n.upper() if self.upper else n, None, None, None, None, None, None) for n in self.names]

    def execute(self, statement, *args):
        return self

    def fetchall(self):
        if self.rowfactory is not None:
            return [self.rowfactory(*r) for r in self.rows]
        return self.make_all(self.make_row(r) for r in self.rows)

    def __iter__(self):
        return iter(self.fetchall())

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def close(self):
        pass


class PlainNative:
    version = "23.0.0"

    def __init__(self, *cursor):
        self.args = cursor

    def cursor(self, *args):
        return PlainCursor(*self.args)

    def commit(self):
        pass

    def close(self):
        pass


@contextlib.contextmanager
def patch_oracle(names, rows, upper=True):
    import oracledb

    with patched(oracledb, "connect", lambda *a, **k: PlainNative(names, rows, upper, list, tuple)), inline_threads():
        yield


@contextlib.contextmanager
def patch_redshift(names, rows):
    import redshift_connector

    with patched(redshift_connector, "connect", lambda *a, **k: PlainNative(names, rows, False, tuple, list)), inline_threads():
        yield


@contextlib.contextmanager
def patch_trino(names, rows):
    import aiotrino

    class Cursor(PlainCursor):
        async def execute(self, statement, *args):
            return self

        async def fetchall(self):
            return super().fetchall()

        async def close(self):
            pass

    class Native(PlainNative):
        async def cursor(self, *args):
            return Cursor(*self.args)

        async def close(self):
            pass

    with patched(aiotrino.dbapi, "connect", lambda *a, **k: Native(names, rows, False, list, list)):
        yield


PATCHES: dict = {
    "postgresql": patch_postgresql,
    "mysql": patch_mysql,
    "mssql": patch_mssql,
    "oracle": patch_oracle,
    "redshift": patch_redshift,
    "trino": patch_trino,
}


@contextlib.contextmanager
def patched(owner, name, value):
    old = getattr(owner, name)
    setattr(owner, name, value)
    try:
        yield
    finally:
        setattr(owner, name, old)


@contextlib.contextmanager
def inline_threads():
    "Blocking calls run at once in the calling thread (the threads themselves are the subject of P21)."

    def submit(self, fn, /, *args, **kwargs):
        future: concurrent.futures.Future = concurrent.futures.Future()
        try:
            future.set_result(fn(*args, **kwargs))
        except BaseException as e:
            future.set_exception(e)
        return future

    with patched(concurrent.futures.ThreadPoolExecutor, "submit", submit):
        yield
