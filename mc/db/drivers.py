"""
Stand-ins for the native database drivers, which execute statements on a model server.

- PostgreSQL (asyncpg): a script is one implicit transaction; bound values must have the exact type of the column.
- MySQL (aiomysql): the real cursor class of the driver on top of a simulated connection, so that the driver's own
  formatting of values and rewriting of bulk inserts take place; each statement commits; results of later statements of a
  script are read when the cursor moves on or closes.
- SQL Server (pyodbc): statements run in a transaction that the cursor commits on exit without error; errors of statements
  that come after one with a row count show up when the cursor moves to the next result.
- Oracle (oracledb): one statement per call, each commits.
"""

import asyncio
import contextlib
import concurrent.futures
import datetime
import re
from typing import Any, Callable, Iterable, Optional

import aiomysql
import asyncpg
import oracledb
import pymysql
import pyodbc
from pymysql.converters import escape_item, escape_string

from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters
from pysqlsync.factory import get_dialect

from .lexer import SqlError, tokenize
from .model import Db, Exec, statements
from .sqlcat import Catalog

DIALECTS = ("postgresql", "mysql", "mssql", "oracle")
COUNTED = ("INSERT", "UPDATE", "DELETE", "MERGE", "SELECT", "WITH")


class Fault(Exception):
    "A fault injected by the explorer (the connection fails, or the server refuses a statement)."


class Server:
    "A database server with one database (and, where the dialect has them, others that must not be touched)."

    def __init__(self, dialect: str, others: Optional[list[Db]] = None, reverse: bool = False) -> None:
        self.dialect = dialect
        self.db = Db(dialect)
        self.others = others or []
        self.reverse = reverse
        self.version = 0
        self.log: list[tuple[str, Any]] = []  # (kind, statement or detail)
        self.before: Optional[Callable[[str, str], None]] = None  # called ahead of each statement: (kind, text)
        self.after: Optional[Callable[[str, str], None]] = None  # called behind each statement
        self.gate: Optional[Callable[[Any], Any]] = None  # awaited ahead of each request of an asynchronous driver
        self.connections = 0
        self.open = 0
        self.transactions: dict[int, Db] = {}  # state before the open transaction of each connection
        self._catalog: Optional[tuple[int, Catalog]] = None

    def touch(self) -> None:
        self.version += 1

    def committed(self) -> Db:
        "What other connections see."

        return next(iter(self.transactions.values()), self.db)

    def catalog(self) -> Catalog:
        if self._catalog is None or self._catalog[0] != self.version:
            if self._catalog is not None:
                self._catalog[1].close()
            self._catalog = (self.version, Catalog(self.db, self.others, self.reverse))
        return self._catalog[1]

    def statement(self, sql: str, params: Optional[list] = None, bind: bool = False) -> Any:
        "Executes one statement; it takes effect as a whole or not at all."

        if self.before is not None:
            self.before("execute", sql)
        self.log.append(("execute", sql))
        backup = self.db.copy()
        self.touch()
        try:
            result = Exec(self.db, sql, params=params, placeholders=bind).run()
        except Exception:
            self.db.restore(backup)
            raise
        if self.after is not None:
            self.after("execute", sql)
        return result

    def many(self, sql: str, rows: list, atomic: bool) -> int:
        if self.before is not None:
            self.before("many", sql)
        self.log.append(("many", (sql, [tuple(r) for r in rows])))
        backup = self.db.copy()
        self.touch()
        count = 0
        try:
            for r in rows:
                step = self.db.copy() if not atomic else None
                try:
                    n = Exec(self.db, sql, params=list(r), placeholders=True).run()
                    count += n if isinstance(n, int) else 0
                except Exception:
                    if step is not None:
                        self.db.restore(step)
                    raise
        except Exception:
            if atomic:
                self.db.restore(backup)
            raise
        if self.after is not None:
            self.after("many", sql)
        return count

    def copy(self, schema: Optional[str], table: str, columns: Optional[list[str]], rows: list) -> int:
        if self.before is not None:
            self.before("copy", f"COPY {table}")
        self.log.append(("copy", (schema, table, tuple(columns or ()), [tuple(r) for r in rows])))
        backup = self.db.copy()
        self.touch()
        try:
            t = self.db.table(schema, table)
            names = list(columns) if columns is not None else [c.name for c in t.cols]
            for n in names:
                t.col(n)
            if len(set(names)) != len(names):
                raise SqlError("column specified more than once")
            for r in rows:
                if len(r) != len(names):
                    raise SqlError(f"row has {len(r)} values, expected {len(names)}")
                t.rows.append(self.db.insert_row(t, dict(zip(names, r)), "copy"))
            self.db.check_all(t)
        except Exception:
            self.db.restore(backup)
            raise
        if self.after is not None:
            self.after("copy", f"COPY {table}")
        return len(rows)

    def query(self, sql: str) -> tuple[list[str], list[tuple]]:
        if self.before is not None:
            self.before("query", sql)
        self.log.append(("query", sql))
        if self.is_catalog(sql):
            result = self.catalog().query(sql)
        else:
            result = Exec(self.db, sql).run()
            if self.reverse and not re.search(r"\border\s+by\b", sql, re.I):
                result = (result[0], result[1][::-1])
        if self.after is not None:
            self.after("query", sql)
        return result

    def is_catalog(self, sql: str) -> bool:
        toks = tokenize(sql, self.dialect)
        words = {str(t.value).lower() for t in toks if t.kind == "word"}
        if "from" not in words:
            return True
        if words & {"information_schema", "pg_catalog"} or any(w.startswith("dba_") or w.startswith("all_") or w.startswith("user_") for w in words):
            return True
        for a, b in zip(toks, toks[1:]):
            if a.kind == "word" and str(a.value).lower() == "sys" and b.kind == "op" and b.value == ".":
                return True
        return False

    def script(self, sql: str, atomic: bool) -> int:
        try:
            parts = statements(sql, self.dialect)
        except SqlError:
            if self.before is not None:
                self.before("execute", sql)
            self.log.append(("execute", sql))
            raise
        backup = self.db.copy() if atomic else None
        try:
            for s in parts:
                self.statement(s)
        except Exception:
            if backup is not None:
                self.db.restore(backup)
                self.touch()
            raise
        return len(parts)


class Transactions:
    "A connection that may not commit each statement by itself; statements that change the schema commit."

    server: Server
    cid: int
    autocommit: bool

    def begin(self, sql: str) -> None:
        if re.match(r"\s*(CREATE|ALTER|DROP|RENAME|TRUNCATE|COMMENT|GRANT)\b", sql, re.I):
            Transactions.commit(self)
        elif not self.autocommit and self.cid not in self.server.transactions and not re.match(r"\s*SELECT\b", sql, re.I):
            self.server.transactions[self.cid] = self.server.db.copy()

    def commit(self) -> None:
        self.server.transactions.pop(self.cid, None)

    def rollback(self) -> None:
        backup = self.server.transactions.pop(self.cid, None)
        if backup is not None:
            self.server.db.restore(backup)
            self.server.touch()


SERVER: Optional[Server] = None


def server() -> Server:
    assert SERVER is not None, "no server"
    return SERVER


@contextlib.contextmanager
def using(s: Server) -> Iterable[Server]:
    "Connections opened in the scope connect to the server."

    global SERVER
    old = SERVER
    SERVER = s
    try:
        yield s
    finally:
        SERVER = old


# PostgreSQL -------------------------------------------------------------------------


class Record:
    "Like asyncpg.Record: a mapping by name and a sequence by position; iteration yields values."

    __slots__ = ("_n", "_v")

    def __init__(self, names, values):
        self._n, self._v = tuple(names), tuple(values)

    def items(self):
        return list(zip(self._n, self._v))

    def keys(self):
        return iter(self._n)

    def values(self):
        return iter(self._v)

    def get(self, name, default=None):
        return dict(self.items()).get(name, default)

    def __getitem__(self, i):
        return self._v[i] if isinstance(i, (int, slice)) else dict(self.items())[i]

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __contains__(self, name):
        return name in self._n


async def _collect(records: Any) -> list:
    if hasattr(records, "__aiter__"):
        return [r async for r in records]
    return list(records)


class PgNative:
    def __init__(self, s: Server) -> None:
        self.server = s
        s.connections += 1
        s.open += 1
        self.cid = s.connections
        self.closed = False

    async def _gate(self, what: str) -> None:
        if self.closed:
            raise asyncpg.InterfaceError("connection is closed")
        if self.server.gate is not None:
            await self.server.gate(self.cid, what)

    def get_server_version(self):
        return type("V", (), {"major": 16, "minor": 0, "micro": 0, "releaselevel": "final", "serial": 0})()

    async def execute(self, query: str, *args: Any, timeout: Any = None) -> str:
        await self._gate(query)
        try:
            if args:
                self.server.statement(query, list(args), True)
            else:
                self.server.script(query, True)
        except SqlError as e:
            raise asyncpg.PostgresError(str(e)) from None
        return "OK"

    async def executemany(self, command: str, args: Any, *, timeout: Any = None) -> None:
        rows = await _collect(args)
        await self._gate(command)
        try:
            self.server.many(command, rows, True)
        except SqlError as e:
            raise asyncpg.PostgresError(str(e)) from None

    async def fetch(self, query: str, *args: Any, timeout: Any = None, record_class: Any = None) -> list:
        await self._gate(query)
        try:
            names, rows = self.server.query(query)
        except SqlError as e:
            raise asyncpg.PostgresError(str(e)) from None
        return [Record(names, r) for r in rows]

    async def copy_records_to_table(self, table_name: str, *, records: Any, columns: Any = None, schema_name: Any = None,
                                    timeout: Any = None, where: Any = None) -> str:
        rows = await _collect(records)
        await self._gate(f"COPY {table_name}")
        try:
            n = self.server.copy(schema_name, table_name, list(columns) if columns is not None else None, rows)
        except SqlError as e:
            raise asyncpg.PostgresError(str(e)) from None
        return f"COPY {n}"

    async def close(self, *, timeout: Any = None) -> None:
        if not self.closed:
            self.closed = True
            self.server.open -= 1

    def is_closed(self) -> bool:
        return self.closed


async def pg_connect(*args: Any, **kwargs: Any) -> PgNative:
    return PgNative(server())


# MySQL ------------------------------------------------------------------------------


class MyResult:
    def __init__(self) -> None:
        self.affected_rows = 0
        self.description = None
        self.insert_id = 0
        self.rows: Any = ()
        self.fields: list = []
        self.warning_count = 0
        self.has_next = False


class MyNative(Transactions):
    "The part of an aiomysql connection that the driver's own cursor uses."

    encoding = "utf-8"
    charset = "utf8mb4"

    def __init__(self, s: Server, autocommit: bool, modes: set) -> None:
        self.server = s
        s.connections += 1
        s.open += 1
        self.cid = s.connections
        self.closed = False
        self.autocommit = autocommit
        self.modes = modes
        self.loop = asyncio.get_running_loop()
        self._result: Optional[MyResult] = None
        self._pending: list = []

    def escape(self, obj: Any) -> str:
        if isinstance(obj, str):
            return "'" + escape_string(obj) + "'"
        if isinstance(obj, (bytes, bytearray)):
            # as in releases of pymysql that aiomysql supports
            return "_binary'" + escape_string(bytes(obj).decode("ascii", "surrogateescape")) + "'"
        return escape_item(obj, self.charset)

    def cursor(self, *classes: Any) -> Any:
        cls = aiomysql.cursors.Cursor
        if len(classes) == 1:
            cls = classes[0]
        elif classes:
            cls = type("C", classes, {})
        cur = cls(self, False)
        fut = asyncio.get_running_loop().create_future()
        fut.set_result(cur)
        return aiomysql.utils._ContextManager(fut)

    async def query(self, sql: Any, unbuffered: bool = False) -> int:
        if isinstance(sql, (bytes, bytearray)):
            sql = bytes(sql).decode("utf-8", "surrogateescape")
        if self.closed:
            raise pymysql.err.InterfaceError(0, "not connected")
        if self.server.gate is not None:
            await self.server.gate(self.cid, sql)
        results: list = []
        try:
            parts = statements(sql, "mysql")
        except SqlError as e:
            self.server.log.append(("execute", sql))
            raise pymysql.err.ProgrammingError(1064, str(e)) from None
        if not parts:
            raise pymysql.err.ProgrammingError(1065, "Query was empty")
        # the server executes all statements until one fails; the client reads the outcomes one by one
        self.server.db.lax = not self.modes & {"STRICT_ALL_TABLES", "STRICT_TRANS_TABLES", "TRADITIONAL"}
        self.server.db.zero_generates = "NO_AUTO_VALUE_ON_ZERO" not in self.modes
        for s in parts:
            try:
                word = s.lstrip().split(None, 1)[0].upper()
                Transactions.begin(self, s)
                r = MyResult()
                if word == "SELECT":
                    names, rows = self.server.query(s)
                    r.description = tuple((n, None, None, None, None, None, None) for n in names)
                    r.rows = tuple(rows)
                    r.fields = [type("F", (), {"name": n})() for n in names]
                    r.affected_rows = len(rows)
                else:
                    n = self.server.statement(s)
                    r.affected_rows = n if isinstance(n, int) else 0
                    r.rows = None
                results.append(r)
            except SqlError as e:
                results.append(pymysql.err.OperationalError(1105, str(e)))
                break
            except Fault as e:
                results.append(e)
                break
        self._pending = results
        await self._read()
        assert self._result is not None
        return self._result.affected_rows

    async def _read(self) -> None:
        self._result = None
        r = self._pending.pop(0)
        if isinstance(r, BaseException):
            self._pending = []
            raise r
        r.has_next = bool(self._pending)
        self._result = r

    async def next_result(self) -> int:
        await self._read()
        assert self._result is not None
        return self._result.affected_rows

    async def show_warnings(self) -> Any:
        return None

    def close(self) -> None:
        if not self.closed:
            Transactions.rollback(self)
            self.closed = True
            self.server.open -= 1

    async def commit(self) -> None:  # type: ignore
        Transactions.commit(self)

    async def rollback(self) -> None:  # type: ignore
        Transactions.rollback(self)

    async def begin(self) -> None:  # type: ignore
        self.server.transactions.setdefault(self.cid, self.server.db.copy())


async def my_connect(*args: Any, **kwargs: Any) -> MyNative:
    "The default modes of a server include strict ones, and hold unless the connection sets others."

    text = f"{kwargs.get('sql_mode') or ''}"
    m = re.search(r"sql_mode\s*=\s*(?:'([^']*)'|\"([^\"]*)\")", str(kwargs.get("init_command") or ""), re.I)
    if m:
        text = m.group(1) or m.group(2) or ""
    modes = set(re.findall(r"[A-Z_]+", text.upper())) or {"STRICT_TRANS_TABLES"}
    return MyNative(server(), bool(kwargs.get("autocommit")), modes)


# SQL Server --------------------------------------------------------------------------


class Row:
    "Like pyodbc.Row: sequence and attributes."

    def __init__(self, names, values):
        self.__dict__["_values"] = tuple(values)
        for n, v in zip(names, values):
            self.__dict__[n] = v

    def __len__(self):
        return len(self._values)

    def __getitem__(self, i):
        return self._values[i]

    def __iter__(self):
        return iter(self._values)

    def __repr__(self):
        return repr(self._values)


class MsNative(Transactions):
    def __init__(self, s: Server, autocommit: bool = False) -> None:
        self.server = s
        s.connections += 1
        s.open += 1
        self.cid = s.connections
        self.closed = False
        self.autocommit = autocommit

    def begin(self, sql: str = "") -> None:
        super().begin("")  # statements that change the schema are part of the transaction

    def cursor(self) -> "MsCursor":
        if self.closed:
            raise pyodbc.ProgrammingError("HY000", "The cursor's connection has been closed.")
        return MsCursor(self)

    def close(self) -> None:
        if not self.closed:
            self.rollback()
            self.closed = True
            self.server.open -= 1


def ms_convertible(v: Any, size: Any) -> bool:
    "Whether the driver can send a value as a parameter of a type; it converts between numbers and text."

    if v is None or size is None:
        return True
    kind, width = (size[0], size[1]) if isinstance(size, tuple) else (None, size)
    bits = {pyodbc.SQL_BIT: 1, pyodbc.SQL_TINYINT: 8, pyodbc.SQL_SMALLINT: 16, pyodbc.SQL_INTEGER: 32, pyodbc.SQL_BIGINT: 64}.get(kind)
    if bits is not None or kind in (pyodbc.SQL_REAL, pyodbc.SQL_DOUBLE, pyodbc.SQL_FLOAT, pyodbc.SQL_DECIMAL):
        try:
            n = float(v) if not isinstance(v, (bytes, bytearray, datetime.date, datetime.time)) else None
        except (TypeError, ValueError):
            n = None
        return n is not None and (bits in (None, 1) or abs(n) <= 2**bits)
    if kind in (pyodbc.SQL_TYPE_TIMESTAMP, pyodbc.SQL_TYPE_DATE, pyodbc.SQL_TYPE_TIME):
        return isinstance(v, (str, datetime.date, datetime.time))
    if kind in (pyodbc.SQL_CHAR, pyodbc.SQL_VARCHAR):
        return not width or not isinstance(v, str) or len(v.encode()) <= width
    if kind in (pyodbc.SQL_BINARY, pyodbc.SQL_VARBINARY):
        return isinstance(v, (bytes, bytearray)) and (not width or len(v) <= width)
    return True


class MsCursor:
    def __init__(self, native: MsNative) -> None:
        self.native = native
        self.fast_executemany = False
        self.names: list[str] = []
        self.rows: Optional[list] = None
        self.pending: list = []
        self.sizes: Optional[list] = None
        self.rowcount = -1

    def __enter__(self) -> "MsCursor":
        return self

    def __exit__(self, kind: Any, value: Any, tb: Any) -> None:
        if kind is None and not self.native.autocommit:
            self.native.commit()

    def setinputsizes(self, sizes: Any) -> None:
        self.sizes = list(sizes) if sizes is not None else None

    def execute(self, sql: str, *params: Any) -> "MsCursor":
        if "@@VERSION" in sql:
            self.names, self.rows = ["v"], [("Microsoft SQL Server 2022",)]
            return self
        s = self.native.server
        self.native.begin()
        self.rows, self.names, self.pending = None, [], []
        if params:
            args = list(params[0]) if len(params) == 1 and isinstance(params[0], (list, tuple)) else list(params)
            try:
                s.statement(sql, args, True)
            except SqlError as e:
                raise pyodbc.ProgrammingError("42000", str(e)) from None
            return self
        try:
            parts = statements(sql, "mssql")
        except SqlError as e:
            s.log.append(("execute", sql))
            raise pyodbc.ProgrammingError("42000", str(e)) from None
        counted = False
        for part in parts:
            word = part.lstrip().split(None, 1)[0].upper()
            try:
                if word == "SELECT":
                    names, rows = s.query(part)
                    outcome: Any = (names, rows)
                else:
                    outcome = s.statement(part)
            except SqlError as e:
                outcome = pyodbc.ProgrammingError("42000", str(e))
            except Fault as e:
                outcome = e
            if counted:
                self.pending.append(outcome)
            elif isinstance(outcome, Exception):
                raise outcome
            elif isinstance(outcome, tuple):
                self.names, self.rows = outcome
            if word in COUNTED:
                counted = True
            if isinstance(outcome, Exception):
                break
        return self

    def nextset(self) -> bool:
        while self.pending:
            r = self.pending.pop(0)
            if isinstance(r, Exception):
                raise r
            if isinstance(r, tuple):
                self.names, self.rows = r
                return True
            if isinstance(r, int):
                self.rows = None
                return True
        return False

    def executemany(self, sql: str, rows: Any) -> None:
        data = list(rows)
        s = self.native.server
        self.native.begin()
        if not data:
            raise pyodbc.ProgrammingError("HY000", "The second parameter to executemany must not be empty.")
        marks = sum(1 for t in tokenize(sql, "mssql", True) if t.kind == "ph")
        for r in data:
            if len(r) != marks:
                raise pyodbc.ProgrammingError("HY000", f"The SQL contains {marks} parameter markers, but {len(r)} parameters were supplied")
            for v, size in zip(r, self.sizes or ()):
                if not ms_convertible(v, size):
                    raise pyodbc.DataError("22018", f"Invalid value for cast specification: {v!r:.80} as {size!r}")
        try:
            s.many(sql, data, False)
        except SqlError as e:
            raise pyodbc.ProgrammingError("42000", str(e)) from None

    def fetchall(self) -> list:
        if self.rows is None:
            raise pyodbc.ProgrammingError("No results.  Previous SQL was not a query.")
        rows, self.rows = self.rows, []
        return [Row(self.names, r) for r in rows]

    def close(self) -> None:
        pass


def ms_connect(*args: Any, **kwargs: Any) -> MsNative:
    return MsNative(server(), bool(kwargs.get("autocommit", False)))


# Oracle -------------------------------------------------------------------------------


class OraVar:
    def __init__(self, typ: Any, size: int = 0) -> None:
        self.typ, self.size = typ, size

    def check(self, v: Any) -> None:
        if v is None:
            return
        t = self.typ
        ok: bool
        if t in (oracledb.DB_TYPE_NUMBER, oracledb.DB_TYPE_BINARY_FLOAT, oracledb.DB_TYPE_BINARY_DOUBLE, oracledb.DB_TYPE_BINARY_INTEGER):
            import decimal

            ok = isinstance(v, (int, float, decimal.Decimal))
        elif t in (oracledb.DB_TYPE_VARCHAR, oracledb.DB_TYPE_CHAR):
            ok = isinstance(v, str)
            if ok and self.size and len(v) > self.size:
                pass  # the driver grows the buffer
        elif t == oracledb.DB_TYPE_CLOB:
            ok = isinstance(v, (str, bytes))
        elif t in (oracledb.DB_TYPE_RAW, oracledb.DB_TYPE_BLOB):
            ok = isinstance(v, (bytes, str))
        elif t in (oracledb.DB_TYPE_DATE, oracledb.DB_TYPE_TIMESTAMP):
            ok = isinstance(v, (datetime.date, datetime.datetime))
        elif t == oracledb.DB_TYPE_INTERVAL_DS:
            ok = isinstance(v, datetime.timedelta)
        elif t == oracledb.DB_TYPE_BOOLEAN:
            ok = isinstance(v, (bool, int, str, float))
        else:
            ok = True
        if not ok:
            raise oracledb.NotSupportedError(f"DPY-3013: unsupported Python type {type(v).__name__} for database type {t.name}")


class OraNative(Transactions):
    def __init__(self, s: Server) -> None:
        self.server = s
        s.connections += 1
        s.open += 1
        self.cid = s.connections
        self.closed = False
        self.autocommit = False

    def cursor(self) -> "OraCursor":
        if self.closed:
            raise oracledb.InterfaceError("DPY-1001: not connected to database")
        return OraCursor(self)

    def close(self) -> None:
        if not self.closed:
            self.rollback()
            self.closed = True
            self.server.open -= 1


class OraCursor:
    def __init__(self, native: OraNative) -> None:
        self.native = native
        self.rowfactory: Any = None
        self.sizes: tuple = ()
        self.rows: Optional[list] = None
        self.names: list[str] = []

    def __enter__(self) -> "OraCursor":
        return self

    def __exit__(self, *args: Any) -> None:
        self.close()

    @property
    def description(self) -> Any:
        return [(n, None, None, None, None, None, None) for n in self.names]

    def var(self, typ: Any, size: int = 0, *args: Any, **kwargs: Any) -> OraVar:
        return OraVar(typ, size)

    def setinputsizes(self, *args: Any) -> None:
        self.sizes = args

    def execute(self, sql: str, params: Any = None) -> "OraCursor":
        s = self.native.server
        if sql.startswith("ALTER SESSION"):
            return self
        if not sql.strip():
            raise oracledb.ProgrammingError("DPY-2066: an empty statement cannot be executed")
        self.rows = None
        self.native.begin(sql)
        try:
            if sql.lstrip().split(None, 1)[0].upper() == "SELECT":
                self.names, self.rows = s.query(sql)
            elif params:
                s.statement(sql, list(params), True)
            else:
                s.statement(sql)
        except SqlError as e:
            raise oracledb.DatabaseError(str(e)) from None
        return self

    def executemany(self, sql: str, rows: Any) -> None:
        data = list(rows)
        marks = len({t.value for t in tokenize(sql, "oracle", True) if t.kind == "ph"})
        if self.sizes and len(self.sizes) != marks:
            raise oracledb.DatabaseError(f"DPY-4009: {marks} positional bind values are required but {len(self.sizes)} were provided")
        for r in data:
            if len(r) != marks:
                raise oracledb.DatabaseError(f"DPY-4009: {marks} positional bind values are required but {len(r)} were provided")
            for v, var in zip(r, self.sizes):
                var.check(v)
        if not data:
            return
        self.native.begin(sql)
        try:
            self.native.server.many(sql, data, False)
        except SqlError as e:
            raise oracledb.DatabaseError(str(e)) from None

    def fetchall(self) -> list:
        if self.rows is None:
            raise oracledb.InterfaceError("DPY-1003: the executed statement does not return rows")
        rows, self.rows = self.rows, []
        if self.rowfactory is not None:
            return [self.rowfactory(*r) for r in rows]
        return [tuple(r) for r in rows]

    def close(self) -> None:
        pass


def ora_connect(*args: Any, **kwargs: Any) -> OraNative:
    return OraNative(server())


# installation --------------------------------------------------------------------------


def inline_submit(self: Any, fn: Callable, /, *args: Any, **kwargs: Any) -> concurrent.futures.Future:
    future: concurrent.futures.Future = concurrent.futures.Future()
    try:
        future.set_result(fn(*args, **kwargs))
    except BaseException as e:
        future.set_exception(e)
    return future


def install() -> None:
    "Replaces the native drivers in this process; blocking calls run in the calling thread."

    asyncpg.connect = pg_connect  # type: ignore
    aiomysql.connect = my_connect  # type: ignore
    pyodbc.connect = ms_connect  # type: ignore
    oracledb.connect = ora_connect  # type: ignore
    concurrent.futures.ThreadPoolExecutor.submit = inline_submit  # type: ignore


PARAMS = ConnectionParameters("h", None, "u", "p", "db", None)


def connect(dialect: str, options: GeneratorOptions) -> Any:
    "A connection (to be used as a context manager) of a new engine."

    return get_dialect(dialect).create_connection(PARAMS, options)


def run(coro: Any) -> Any:
    return asyncio.run(coro)
