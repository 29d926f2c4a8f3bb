"""
An executable model of the databases: schemas, tables, types, constraints and rows, with the existence, uniqueness and
dependency rules that the real databases enforce. Statements that the model does not understand are rejected like
statements that the database does not understand.
"""

import copy
import datetime
import decimal
import re
from dataclasses import dataclass, field
from typing import Any, Optional

from . import sqltypes as T
from .lexer import MAX_ID, SqlError, Tok, tokenize

END = Tok("end", None, 0)


@dataclass
class Col:
    name: str
    typ: tuple
    not_null: bool = False
    default: Optional[tuple] = None  # (expression, text as written)
    identity: bool = False
    comment: Optional[str] = None
    default_name: Optional[str] = None  # MSSQL: name of the default constraint
    num: int = 0


@dataclass
class Con:
    name: str
    kind: str  # p, u, f, c
    cols: tuple = ()
    ref: Optional[tuple] = None  # (schema, table, columns)
    expr: Any = None
    text: str = ""


@dataclass
class Tab:
    schema: str
    name: str
    cols: list[Col] = field(default_factory=list)
    cons: dict[str, Con] = field(default_factory=dict)
    comment: Optional[str] = None
    rows: list[dict[str, Any]] = field(default_factory=list)
    next_id: int = 1
    next_num: int = 1
    dropped: list[int] = field(default_factory=list)
    oid: int = 0

    def col(self, name: str) -> Col:
        for c in self.cols:
            if c.name == name:
                return c
        raise SqlError(f"column {name!r} of table {self.name!r} does not exist")

    def has(self, name: str) -> bool:
        return any(c.name == name for c in self.cols)

    @property
    def primary(self) -> Optional[Con]:
        for c in self.cons.values():
            if c.kind == "p":
                return c
        return None

    def copy(self) -> "Tab":
        t = copy.copy(self)
        t.cols = [copy.copy(c) for c in self.cols]
        t.cons = {k: copy.copy(c) for k, c in self.cons.items()}
        t.rows = [dict(r) for r in self.rows]
        t.dropped = list(self.dropped)
        return t


@dataclass
class Enum:
    name: str
    values: list[str]
    oid: int = 0


@dataclass
class Member:
    name: str
    typ: tuple
    comment: Optional[str] = None
    num: int = 0


@dataclass
class Struct:
    name: str
    members: list[Member]
    comment: Optional[str] = None
    next_num: int = 1
    oid: int = 0


@dataclass
class Schema:
    name: str
    tables: dict[str, Tab] = field(default_factory=dict)
    enums: dict[str, Enum] = field(default_factory=dict)
    structs: dict[str, Struct] = field(default_factory=dict)
    oid: int = 0


DEFAULT_SCHEMA = {"postgresql": "public", "mysql": "appdb", "mssql": "dbo", "oracle": "APP"}


class Db:
    "State of one database."

    def __init__(self, dialect: str) -> None:
        self.dialect = dialect
        self.current = DEFAULT_SCHEMA[dialect]
        self.schemas: dict[str, Schema] = {}
        self.oids = 16384
        self.lax = False  # a value that does not fit is altered until it does (MySQL unless in a strict mode)
        self.zero_generates = False  # zero stands for a generated key (MySQL unless told otherwise)
        self.schemas[self.current] = Schema(self.current, oid=self.new_oid())

    def new_oid(self) -> int:
        self.oids += 1
        return self.oids

    def copy(self) -> "Db":
        db = copy.copy(self)
        db.schemas = {}
        for name, s in self.schemas.items():
            c = copy.copy(s)
            c.tables = {k: t.copy() for k, t in s.tables.items()}
            c.enums = {k: Enum(e.name, list(e.values), e.oid) for k, e in s.enums.items()}
            c.structs = {}
            for k, st in s.structs.items():
                n = copy.copy(st)
                n.members = [copy.copy(m) for m in st.members]
                c.structs[k] = n
            db.schemas[name] = c
        return db

    def restore(self, other: "Db") -> None:
        self.__dict__.update(other.copy().__dict__)

    # lookup --------------------------------------------------------------------

    def schema(self, name: Optional[str]) -> Schema:
        if self.dialect in ("mysql", "oracle"):
            if name is not None and name != self.current:
                raise SqlError(f"unknown database/user {name!r}")
            return self.schemas[self.current]
        s = self.schemas.get(name if name is not None else self.current)
        if s is None:
            raise SqlError(f"schema {name!r} does not exist")
        return s

    def table(self, schema: Optional[str], name: str) -> Tab:
        s = self.schema(schema)
        t = s.tables.get(name)
        if t is None:
            raise SqlError(f"table {name!r} does not exist in schema {s.name!r}")
        return t

    def tables(self) -> list[Tab]:
        return [t for s in self.schemas.values() for t in s.tables.values()]

    def resolve_type(self, schema: Optional[str], name: str) -> tuple:
        if schema == "pg_catalog":
            for typ, names in T.PG_NAMES.items():
                if names[0] == name:
                    return typ
            if name in ("timestamp", "timestamptz"):
                return ("ts", None, name == "timestamptz")
            if name in ("time", "timetz"):
                return ("time", None, name == "timetz")
            if name == "numeric":
                return ("dec", None, None)
            if name == "varchar":
                return ("varchar", None)
            raise SqlError(f"type pg_catalog.{name} does not exist")
        s = self.schema(schema)
        if name in s.enums:
            return ("enum", s.name, name)
        if name in s.structs:
            return ("struct", s.name, name)
        raise SqlError(f"type {s.name}.{name} does not exist")

    def type_users(self, typ: tuple) -> list[str]:
        "Descriptions of the columns and attributes that use a user-defined type."

        def uses(t: tuple) -> bool:
            return t == typ or (t[0] == "array" and uses(t[1]))

        out = []
        for s in self.schemas.values():
            for t in s.tables.values():
                out.extend(f"column {t.name}.{c.name}" for c in t.cols if uses(c.typ))
            for st in s.structs.values():
                if ("struct", s.name, st.name) != typ:
                    out.extend(f"attribute {st.name}.{m.name}" for m in st.members if uses(m.typ))
        return out

    def table_users(self, t: Tab) -> list[tuple[Tab, Con]]:
        "Foreign keys of other tables that reference a table."

        return [
            (o, c)
            for o in self.tables()
            for c in o.cons.values()
            if c.kind == "f" and c.ref[:2] == (t.schema, t.name) and o is not t
        ]

    # names ---------------------------------------------------------------------

    def check_name(self, name: str) -> None:
        if not name:
            raise SqlError("zero-length identifier")
        if self.dialect == "mysql" and name.endswith(" "):
            raise SqlError(f"incorrect name {name!r}")

    def check_new_object(self, s: Schema, name: str) -> None:
        self.check_name(name)
        d = self.dialect
        if name in s.tables:
            raise SqlError(f"relation {name!r} already exists in schema {s.name!r}")
        if d == "postgresql":
            if name in s.enums or name in s.structs:
                raise SqlError(f"type {name!r} already exists in schema {s.name!r}")
            if name in self.index_names(s):
                raise SqlError(f"relation {name!r} already exists in schema {s.name!r}")
        if d == "mssql" and name in self.constraint_names(s):
            raise SqlError(f"there is already an object named {name!r} in the database")

    def index_names(self, s: Schema) -> set[str]:
        return {c.name for t in s.tables.values() for c in t.cons.values() if c.kind in "pu"}

    def constraint_names(self, s: Schema) -> set[str]:
        out = {c.name for t in s.tables.values() for c in t.cons.values()}
        out |= {c.default_name for t in s.tables.values() for c in t.cols if c.default_name}
        return out

    def check_new_constraint(self, t: Tab, con: Con) -> None:
        self.check_name(con.name)
        s = self.schemas[t.schema]
        d = self.dialect
        taken = False
        if d == "postgresql":
            taken = con.name in t.cons
            if con.kind in "pu":
                taken = taken or con.name in self.index_names(s) or con.name in s.tables or con.name in s.structs
        elif d == "mysql":
            if con.kind == "p":
                pass
            elif con.kind == "u":
                taken = any(c.kind == "u" and c.name.lower() == con.name.lower() for c in t.cons.values())
            else:
                taken = any(
                    c.kind == con.kind and c.name.lower() == con.name.lower()
                    for o in s.tables.values()
                    for c in o.cons.values()
                )
        elif d == "mssql":
            taken = con.name in self.constraint_names(s) or con.name in s.tables
        else:
            taken = con.name in self.constraint_names(s)
        if taken:
            raise SqlError(f"constraint {con.name!r} for table {t.name!r} already exists")

    def add_constraint(self, t: Tab, con: Con) -> None:
        self.check_new_constraint(t, con)
        d = self.dialect
        cols = [t.col(c) for c in con.cols]
        if con.kind in "puf" and len(set(con.cols)) != len(con.cols):
            raise SqlError(f"column appears twice in constraint {con.name!r}")
        if con.kind in "pu":
            for c in cols:
                if not T.is_keyable(c.typ, d):
                    raise SqlError(f"column {c.name!r} of type {c.typ!r} cannot be a key")
        if con.kind == "p":
            if t.primary is not None:
                raise SqlError(f"multiple primary keys for table {t.name!r}")
            for c in cols:
                if d == "mssql" and not c.not_null:
                    raise SqlError("cannot define PRIMARY KEY constraint on nullable column")
                if any(r[c.name] is None for r in t.rows):
                    raise SqlError(f"column {c.name!r} contains null values")
                c.not_null = True
        if con.kind == "f":
            target = self.schemas.get(con.ref[0], Schema("")).tables.get(con.ref[1])
            if target is None:
                raise SqlError(f"referenced table {con.ref[1]!r} does not exist")
            columns = con.ref[2]
            if columns is None:
                if target.primary is None:
                    raise SqlError("no primary key for referenced table")
                columns = target.primary.cols
                con.ref = (con.ref[0], con.ref[1], columns)
            if len(columns) != len(con.cols):
                raise SqlError("number of referencing and referenced columns disagree")
            for a, b in zip(con.cols, columns):
                if not T.fk_compatible(t.col(a).typ, target.col(b).typ, d):
                    raise SqlError(
                        f"foreign key {con.name!r}: incompatible types {t.col(a).typ!r} and {target.col(b).typ!r}"
                    )
            if not any(c.kind in "pu" and sorted(c.cols) == sorted(columns) for c in target.cons.values()):
                raise SqlError(f"no unique constraint matching given keys for referenced table {target.name!r}")
            if d == "mysql":
                for a in con.cols:
                    if not T.is_keyable(t.col(a).typ, d):
                        raise SqlError("BLOB/TEXT column used in key specification without a key length")
        t.cons[con.name] = con
        try:
            self.check_rows(t, [con])
        except SqlError:
            del t.cons[con.name]
            raise

    # data ------------------------------------------------------------------------

    def check_rows(self, t: Tab, cons: Optional[list[Con]] = None) -> None:
        d = self.dialect
        for con in cons if cons is not None else t.cons.values():
            if con.kind in "pu":
                seen = set()
                for r in t.rows:
                    key = tuple(r[c] for c in con.cols)
                    if any(k is None for k in key):
                        if con.kind == "p":
                            raise SqlError("null value in primary key")
                        if d != "mssql" and not (d == "oracle" and any(k is not None for k in key)):
                            continue
                    if key in seen:
                        raise SqlError(f"duplicate key value violates unique constraint {con.name!r}: {key!r}")
                    seen.add(key)
            elif con.kind == "f":
                target = self.schemas[con.ref[0]].tables[con.ref[1]]
                keys = {tuple(r[c] for c in con.ref[2]) for r in target.rows}
                for r in t.rows:
                    key = tuple(r[c] for c in con.cols)
                    if any(k is None for k in key):
                        continue
                    if key not in keys:
                        raise SqlError(f"violates foreign key constraint {con.name!r}: {key!r}")
            elif con.kind == "c":
                for r in t.rows:
                    if evaluate(con.expr, Env(self, {None: (t, r)})) is False:
                        raise SqlError(f"violates check constraint {con.name!r}")
        if cons is None:
            for c in t.cols:
                if c.not_null and any(r[c.name] is None for r in t.rows):
                    raise SqlError(f"null value in column {c.name!r} violates not-null constraint")

    def check_all(self, changed: Tab) -> None:
        self.check_rows(changed)
        for o, con in self.table_users(changed):
            self.check_rows(o, [con])

    def insert_row(self, t: Tab, values: dict[str, Any], origin: str) -> dict[str, Any]:
        row: dict[str, Any] = {}
        for c in t.cols:
            if c.name in values:
                v = values[c.name]
                if c.identity:
                    if self.dialect == "mssql":
                        raise SqlError("cannot insert explicit value for identity column when IDENTITY_INSERT is OFF")
                    if (v is None or v == 0 and self.zero_generates) and self.dialect == "mysql":
                        v = t.next_id
                        t.next_id += 1
                    elif self.dialect == "mysql" and isinstance(v, int) and v >= t.next_id:
                        t.next_id = v + 1
                row[c.name] = T.assign(c.typ, v, self, origin)
            elif c.identity:
                row[c.name] = t.next_id
                t.next_id += 1
            elif c.default is not None:
                row[c.name] = T.assign(c.typ, evaluate(c.default[0], Env(self, {})), self, "literal")
            else:
                row[c.name] = None
            if row[c.name] is None and c.not_null:
                raise SqlError(f"null value in column {c.name!r} of table {t.name!r} violates not-null constraint")
        return row


# expressions ----------------------------------------------------------------------


class Env:
    "Names visible to an expression: {alias or None: (table, row)}; `extra` holds plain rows such as EXCLUDED."

    def __init__(self, db: Db, scopes: dict, params: Optional[list] = None, extra: Optional[dict] = None) -> None:
        self.db = db
        self.scopes = scopes
        self.params = params
        self.extra = extra or {}

    def lookup(self, qualifier: Optional[str], name: str) -> Any:
        if qualifier is not None:
            for alias, (t, row) in self.scopes.items():
                if alias == qualifier or (alias is None and t is not None and t.name == qualifier):
                    if name not in row:
                        raise SqlError(f"column {qualifier}.{name} does not exist")
                    return row[name]
            if qualifier in self.extra:
                if name not in self.extra[qualifier]:
                    raise SqlError(f"column {qualifier}.{name} does not exist")
                return self.extra[qualifier][name]
            raise SqlError(f"missing FROM-clause entry for table {qualifier!r}")
        found = [row[name] for t, row in self.scopes.values() if name in row]
        if not found:
            raise SqlError(f"column {name!r} does not exist")
        if len(found) > 1:
            raise SqlError(f"column reference {name!r} is ambiguous")
        return found[0]


def evaluate(e: Any, env: Env) -> Any:
    op = e[0]
    if op == "lit":
        return e[1]
    if op == "param":
        if env.params is None or e[1] >= len(env.params):
            raise SqlError(f"there is no parameter {e[1] + 1}")
        return env.params[e[1]]
    if op == "col":
        return env.lookup(e[1], e[2])
    if op == "and":
        vals = [evaluate(x, env) for x in e[1:]]
        if any(v is False for v in vals):
            return False
        return None if any(v is None for v in vals) else True
    if op == "or":
        vals = [evaluate(x, env) for x in e[1:]]
        if any(v is True for v in vals):
            return True
        return None if any(v is None for v in vals) else False
    if op == "not":
        v = evaluate(e[1], env)
        return None if v is None else not v
    if op == "isnull":
        return (evaluate(e[1], env) is None) == e[2]
    if op == "neg":
        v = evaluate(e[1], env)
        return None if v is None else -v
    if op == "cast":
        v = evaluate(e[1], env)
        if v is None:
            return None
        if e[2][0] in ("text", "varchar", "char") and isinstance(v, str):
            return v
        return T.assign(e[2], v, env.db, "literal")
    if op == "in":
        v = evaluate(e[1], env)
        if v is None:
            return None
        items = [evaluate(x, env) for x in e[2]]
        if any(i is not None and _eq(v, i) for i in items):
            return True
        return None if any(i is None for i in items) else False
    if op == "cmp":
        a, b = evaluate(e[2], env), evaluate(e[3], env)
        if a is None or b is None:
            return None
        if e[1] == "=":
            return _eq(a, b)
        if e[1] in ("<>", "!="):
            return not _eq(a, b)
        if isinstance(a, str) != isinstance(b, str):
            raise SqlError(f"operator does not exist: {type(a).__name__} {e[1]} {type(b).__name__}")
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[e[1]]
    if op == "call":
        if e[1] in ("now", "current_timestamp", "getdate"):
            return datetime.datetime(2026, 1, 1)
    raise SqlError(f"expression not modelled: {e!r}")


def _eq(a: Any, b: Any) -> bool:
    if isinstance(a, str) != isinstance(b, str):
        raise SqlError(f"operator does not exist: {type(a).__name__} = {type(b).__name__}")
    return a == b


def expr_columns(e: Any) -> set[str]:
    if isinstance(e, tuple):
        if e and e[0] == "col":
            return {e[2]}
        if e and e[0] in ("lit", "param"):
            return set()
        out: set[str] = set()
        for x in e:
            out |= expr_columns(x)
        return out
    if isinstance(e, list):
        return set().union(*[expr_columns(x) for x in e]) if e else set()
    return set()


# parser -----------------------------------------------------------------------------


class Parser:
    def __init__(self, db: Db, sql: str, params: Optional[list] = None, placeholders: bool = False) -> None:
        self.db = db
        self.d = db.dialect
        self.sql = sql
        self.toks = tokenize(sql, db.dialect, placeholders)
        self.i = 0
        self.params = params
        self.origin = "param" if params is not None else "literal"

    # tokens

    def peek(self, k: int = 0) -> Tok:
        return self.toks[self.i + k] if self.i + k < len(self.toks) else END

    def next(self) -> Tok:
        t = self.peek()
        if t is END:
            raise SqlError("syntax error at end of input")
        self.i += 1
        return t

    def at_end(self) -> bool:
        return self.peek() is END

    def peek_word(self, *words: str, k: int = 0) -> bool:
        t = self.peek(k)
        return t.kind == "word" and t.value.upper() in words

    def accept_word(self, *words: str) -> Optional[str]:
        if self.peek_word(*words):
            return self.next().value.upper()
        return None

    def expect_word(self, *words: str) -> str:
        w = self.accept_word(*words)
        if w is None:
            raise SqlError(f"syntax error at or near {self.peek()!r}, expected {'/'.join(words)}")
        return w

    def words(self, *words: str) -> bool:
        "Accepts a sequence of words if all are present."

        for k, w in enumerate(words):
            if not self.peek_word(w, k=k):
                return False
        self.i += len(words)
        return True

    def peek_op(self, op: str, k: int = 0) -> bool:
        t = self.peek(k)
        return t.kind == "op" and t.value == op

    def accept_op(self, op: str) -> bool:
        if self.peek_op(op):
            self.i += 1
            return True
        return False

    def expect_op(self, op: str) -> None:
        if not self.accept_op(op):
            raise SqlError(f"syntax error at or near {self.peek()!r}, expected {op!r}")

    def expect_kind(self, kind: str) -> Tok:
        t = self.peek()
        if t.kind != kind:
            raise SqlError(f"syntax error at or near {t!r}, expected {kind}")
        return self.next()

    def fold(self, t: Tok) -> str:
        if t.kind == "word":
            if self.d == "postgresql":
                return t.value.lower()
            if self.d == "oracle":
                return t.value.upper()
        return t.value

    def ident(self) -> str:
        t = self.peek()
        if t.kind not in ("id", "word"):
            raise SqlError(f"syntax error at or near {t!r}, expected identifier")
        self.next()
        return self.fold(t)

    def qname(self) -> tuple[Optional[str], str]:
        name = self.ident()
        if self.accept_op("."):
            return name, self.ident()
        return None, name

    def id_list(self) -> tuple[str, ...]:
        self.expect_op("(")
        out = [self.ident()]
        while self.accept_op(","):
            out.append(self.ident())
        self.expect_op(")")
        return tuple(out)

    def text_between(self, start: int) -> str:
        a = self.toks[start].pos
        b = self.peek().pos if not self.at_end() else len(self.sql)
        return self.sql[a:b].strip().rstrip(";").strip()

    # expressions

    def expr(self) -> Any:
        items = [self.expr_and()]
        while self.accept_word("OR"):
            items.append(self.expr_and())
        return items[0] if len(items) == 1 else ("or", *items)

    def expr_and(self) -> Any:
        items = [self.expr_not()]
        while self.accept_word("AND"):
            items.append(self.expr_not())
        return items[0] if len(items) == 1 else ("and", *items)

    def expr_not(self) -> Any:
        if self.accept_word("NOT"):
            return ("not", self.expr_not())
        return self.expr_cmp()

    def expr_cmp(self) -> Any:
        left = self.expr_unary()
        if self.accept_word("IS"):
            neg = bool(self.accept_word("NOT"))
            self.expect_word("NULL")
            return ("isnull", left, not neg)
        neg = bool(self.accept_word("NOT"))
        if self.accept_word("IN"):
            self.expect_op("(")
            items = [self.expr()]
            while self.accept_op(","):
                items.append(self.expr())
            self.expect_op(")")
            e = ("in", left, tuple(items))
            return ("not", e) if neg else e
        if self.accept_word("BETWEEN"):
            lo = self.expr_unary()
            self.expect_word("AND")
            hi = self.expr_unary()
            e = ("and", ("cmp", ">=", left, lo), ("cmp", "<=", left, hi))
            return ("not", e) if neg else e
        if neg:
            raise SqlError("syntax error near NOT")
        t = self.peek()
        if t.kind == "op" and t.value in ("=", "<>", "!=", "<", "<=", ">", ">="):
            self.next()
            return ("cmp", t.value, left, self.expr_unary())
        return left

    def expr_unary(self) -> Any:
        if self.accept_op("-"):
            e = self.expr_unary()
            return ("lit", -e[1]) if e[0] == "lit" and isinstance(e[1], (int, decimal.Decimal)) else ("neg", e)
        e = self.expr_primary()
        while self.accept_op("::"):
            e = ("cast", e, T.parse_type(self, self.db))
        return e

    def expr_primary(self) -> Any:
        t = self.peek()
        if t.kind == "num":
            self.next()
            s = t.value
            return ("lit", int(s) if s.isdigit() else decimal.Decimal(s))
        if t.kind == "str":
            self.next()
            return ("lit", t.value)
        if t.kind == "ph":
            self.next()
            return ("param", t.value)
        if self.accept_op("("):
            e = self.expr()
            self.expect_op(")")
            return e
        if t.kind == "word":
            w = t.value.upper()
            if w == "NULL":
                self.next()
                return ("lit", None)
            if w in ("TRUE", "FALSE"):
                if self.d == "mssql":
                    raise SqlError(f"invalid column name {t.value!r}")
                self.next()
                v = w == "TRUE"
                return ("lit", int(v) if self.d == "mysql" else v)
            if w == "_BINARY" and self.peek(1).kind == "str":
                self.next()
                # bytes are written by the driver with surrogate escapes
                return ("lit", self.next().value.encode("ascii", "surrogateescape"))
            if w in ("TIMESTAMP", "DATE", "TIME") and self.peek(1).kind == "str":
                self.next()
                s = self.next().value
                if w == "TIMESTAMP":
                    return ("lit", datetime.datetime.fromisoformat(s))
                if w == "DATE":
                    return ("lit", datetime.date.fromisoformat(s))
                return ("lit", datetime.time.fromisoformat(s))
            if w == "INTERVAL" and self.d == "oracle" and self.peek(1).kind == "str":
                self.next()
                m = re.fullmatch(r"(\d+) (\d{2}):(\d{2}):(\d{2}(?:\.\d+)?)", self.next().value)
                if not m or not self.words("DAY", "TO", "SECOND"):
                    raise SqlError("ORA-01867: the interval is invalid")
                n = [decimal.Decimal(x) for x in m.groups()]
                micro = int((n[0] * 86400 + n[1] * 3600 + n[2] * 60 + n[3]) * 1000000)
                return ("lit", datetime.timedelta(microseconds=micro))
            if w == "CAST" and self.peek_op("(", 1):
                self.next()
                self.next()
                e = self.expr()
                self.expect_word("AS")
                typ = T.parse_type(self, self.db)
                self.expect_op(")")
                return ("cast", e, typ)
            if w == "VALUES" and self.d == "mysql" and self.peek_op("(", 1):
                self.next()
                self.next()
                name = self.ident()
                self.expect_op(")")
                return ("col", "VALUES()", name)
            if self.peek_op("(", 1):
                self.next()
                self.next()
                self.expect_op(")")
                return ("call", w.lower())
            if w in ("CURRENT_TIMESTAMP", "CURRENT_DATE"):
                self.next()
                return ("call", w.lower())
        if t.kind in ("id", "word"):
            name = self.ident()
            if self.accept_op("."):
                second = self.ident()
                if self.accept_op("."):
                    return ("col", second, self.ident())
                return ("col", name, second)
            return ("col", None, name)
        raise SqlError(f"syntax error at or near {t!r}")


class Exec(Parser):
    "Executes one statement."

    def run(self) -> Any:
        result = self.statement()
        while self.accept_op(";"):
            pass
        if not self.at_end():
            raise SqlError(f"syntax error at or near {self.peek()!r}")
        return result

    def statement(self) -> Any:
        w = self.peek()
        if w.kind != "word":
            raise SqlError(f"syntax error at or near {w!r}")
        handler = getattr(self, "do_" + w.value.lower(), None)
        if handler is None:
            raise SqlError(f"statement not modelled: {w.value}")
        self.next()
        return handler()

    # schemas and types

    def do_create(self) -> None:
        if self.accept_word("SCHEMA"):
            exists = self.words("IF", "NOT", "EXISTS")
            if exists and self.d != "postgresql":
                raise SqlError("syntax error near IF")
            name = self.ident()
            self.new_schema(name, exists)
        elif self.accept_word("TYPE"):
            self.create_type()
        elif self.accept_word("TABLE"):
            self.create_table()
        else:
            raise SqlError(f"CREATE {self.peek()!r} not modelled")

    def new_schema(self, name: str, exists_ok: bool) -> None:
        if self.d not in ("postgresql", "mssql"):
            raise SqlError("schemas are not supported")
        if name in self.db.schemas:
            if exists_ok:
                return
            raise SqlError(f"schema {name!r} already exists")
        if self.d == "postgresql" and name.startswith("pg_"):
            raise SqlError(f"unacceptable schema name {name!r}")
        self.db.check_name(name)
        self.db.schemas[name] = Schema(name, oid=self.db.new_oid())

    def do_if(self) -> None:
        "IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = 'x' ) EXEC('CREATE SCHEMA ...')"

        if self.d != "mssql":
            raise SqlError("syntax error near IF")
        self.expect_word("NOT")
        self.expect_word("EXISTS")
        self.expect_op("(")
        self.expect_word("SELECT")
        if not self.accept_op("*"):
            self.next()
        self.expect_word("FROM")
        if self.qname() != ("sys", "schemas"):
            raise SqlError("condition not modelled")
        self.expect_word("WHERE")
        if self.ident() != "name":
            raise SqlError("condition not modelled")
        self.expect_op("=")
        name = self.expect_kind("str").value
        self.expect_op(")")
        found = name in self.db.schemas
        self.expect_word("EXEC", "EXECUTE")
        paren = self.accept_op("(")
        text = self.expect_kind("str").value
        if paren:
            self.expect_op(")")
        if not found:
            Exec(self.db, text).run()

    def do_begin(self) -> None:
        "BEGIN EXECUTE IMMEDIATE '...'; EXCEPTION WHEN OTHERS THEN IF SQLCODE != -942 THEN RAISE; END IF; END;"

        if self.d != "oracle":
            raise SqlError("syntax error near BEGIN")
        self.expect_word("EXECUTE")
        self.expect_word("IMMEDIATE")
        text = self.expect_kind("str").value
        self.expect_op(";")
        ignored = None
        if self.accept_word("EXCEPTION"):
            for w in ("WHEN", "OTHERS", "THEN", "IF", "SQLCODE"):
                self.expect_word(w)
            if not self.accept_op("!="):
                self.expect_op("<>")
            self.expect_op("-")
            ignored = int(self.expect_kind("num").value)
            self.expect_word("THEN")
            self.expect_word("RAISE")
            self.expect_op(";")
            self.expect_word("END")
            self.expect_word("IF")
            self.expect_op(";")
        self.expect_word("END")
        self.expect_op(";")
        try:
            Exec(self.db, text).run()
        except SqlError as e:
            if ignored != 942 or "does not exist" not in str(e):
                raise

    def create_type(self) -> None:
        if self.d != "postgresql":
            raise SqlError("CREATE TYPE not supported")
        schema, name = self.qname()
        s = self.db.schema(schema)
        self.db.check_new_object(s, name)
        self.expect_word("AS")
        if self.accept_word("ENUM"):
            self.expect_op("(")
            values: list[str] = []
            if not self.peek_op(")"):
                while True:
                    values.append(self.expect_kind("str").value)
                    if not self.accept_op(","):
                        break
            self.expect_op(")")
            if len(set(values)) != len(values):
                raise SqlError("enum label used more than once")
            for v in values:
                self.check_label(v)
            s.enums[name] = Enum(name, values, self.db.new_oid())
        else:
            self.expect_op("(")
            st = Struct(name, [], oid=self.db.new_oid())
            if not self.peek_op(")"):
                while True:
                    self.add_member(st, s)
                    if not self.accept_op(","):
                        break
            self.expect_op(")")
            s.structs[name] = st

    def check_label(self, v: str) -> None:
        if len(v.encode("utf-8")) > 63:
            raise SqlError(f"invalid enum label {v!r}")

    def add_member(self, st: Struct, s: Schema) -> None:
        mname = self.ident()
        typ = T.parse_type(self, self.db)
        if any(m.name == mname for m in st.members):
            raise SqlError(f"column name {mname!r} specified more than once")
        st.members.append(Member(mname, typ, num=st.next_num))
        st.next_num += 1

    def do_drop(self) -> None:
        kind = self.expect_word("SCHEMA", "TYPE", "TABLE")
        exists = self.words("IF", "EXISTS")
        if exists and self.d == "oracle":
            pass  # 23ai
        if kind == "SCHEMA":
            name = self.ident()
            cascade = self.accept_word("CASCADE", "RESTRICT") == "CASCADE"
            self.drop_schema(name, exists, cascade)
            return
        names = [self.qname()]
        while self.accept_op(","):
            names.append(self.qname())
        cascade = False
        if self.accept_word("CASCADE"):
            cascade = True
            if self.d == "oracle":
                self.expect_word("CONSTRAINTS")
            elif self.d == "mssql":
                raise SqlError("syntax error near CASCADE")
        else:
            self.accept_word("RESTRICT")
        if self.d == "oracle":
            self.accept_word("PURGE")
        # servers that drop several tables as a whole permit references among them
        group = {(self.db.schema(x).name, n) for x, n in names} if self.d in ("postgresql", "mysql") and kind == "TABLE" else set()
        for schema, name in names:
            if kind == "TABLE":
                self.drop_table(schema, name, exists, cascade, group)
            else:
                self.drop_type(schema, name, exists, cascade)

    def drop_schema(self, name: str, exists: bool, cascade: bool) -> None:
        if self.d not in ("postgresql", "mssql"):
            raise SqlError("schemas are not supported")
        if name not in self.db.schemas:
            if exists:
                return
            raise SqlError(f"schema {name!r} does not exist")
        s = self.db.schemas[name]
        if cascade and self.d == "mssql":
            raise SqlError("syntax error near CASCADE")
        if not cascade and (s.tables or s.enums or s.structs):
            raise SqlError(f"cannot drop schema {name!r} because other objects depend on it")
        if cascade:
            for t in self.db.tables():
                if t.schema == name:
                    continue
                for cname in [c.name for c in t.cons.values() if c.kind == "f" and c.ref[0] == name]:
                    del t.cons[cname]
                for c in list(t.cols):
                    base = c.typ
                    while base[0] == "array":
                        base = base[1]
                    if base[0] in ("enum", "struct") and base[1] == name:
                        self.remove_column(t, c)
            for o in self.db.schemas.values():
                if o.name == name:
                    continue
                for st in o.structs.values():
                    st.members = [m for m in st.members if not (m.typ[0] in ("enum", "struct") and m.typ[1] == name)]
        del self.db.schemas[name]

    def drop_type(self, schema: Optional[str], name: str, exists: bool, cascade: bool) -> None:
        if self.d != "postgresql":
            raise SqlError("DROP TYPE not supported")
        s = self.db.schema(schema)
        kind = "enum" if name in s.enums else "struct" if name in s.structs else None
        if kind is None:
            if exists:
                return
            raise SqlError(f"type {name!r} does not exist")
        users = self.db.type_users((kind, s.name, name))
        if users:
            if cascade:
                raise SqlError("DROP TYPE CASCADE not modelled")
            raise SqlError(f"cannot drop type {name!r} because other objects depend on it: {users}")
        del (s.enums if kind == "enum" else s.structs)[name]

    def drop_table(self, schema: Optional[str], name: str, exists: bool, cascade: bool, group: Any = ()) -> None:
        s = self.db.schema(schema)
        if name not in s.tables:
            if exists:
                return
            raise SqlError(f"table {name!r} does not exist")
        t = s.tables[name]
        users = [(o, c) for o, c in self.db.table_users(t) if (o.schema, o.name) not in group]
        if users:
            if not cascade or self.d == "mysql":
                raise SqlError(
                    f"cannot drop table {name!r} because it is referenced by {[o.name + '.' + c.name for o, c in users]}"
                )
            for o, c in users:
                del o.cons[c.name]
        del s.tables[name]

    # tables

    def create_table(self) -> None:
        exists_ok = self.words("IF", "NOT", "EXISTS")
        schema, name = self.qname()
        s = self.db.schema(schema)
        if exists_ok and name in s.tables:
            raise SqlError("CREATE TABLE IF NOT EXISTS of an existing table not modelled")
        self.db.check_new_object(s, name)
        t = Tab(s.name, name, oid=self.db.new_oid())
        cons: list[Con] = []
        self.expect_op("(")
        while True:
            if self.peek_word("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "CHECK"):
                cons.append(self.constraint_def(t))
            else:
                self.column_def(t, cons)
            if not self.accept_op(","):
                break
        self.expect_op(")")
        if self.d == "mysql":
            while not self.at_end() and not self.peek_op(";"):
                if self.accept_word("COMMENT"):
                    self.accept_op("=")
                    t.comment = self.table_comment(self.expect_kind("str").value)
                elif self.accept_word("ENGINE", "CHARSET", "COLLATE"):
                    self.accept_op("=")
                    self.next()
                else:
                    break
        if not t.cols:
            raise SqlError("a table must have at least one column")
        s.tables[name] = t
        try:
            for con in cons:
                self.db.add_constraint(t, con)
            self.after_change(t)
        except SqlError:
            del s.tables[name]
            raise

    def table_comment(self, text: str) -> Optional[str]:
        if len(text) > 2048:
            raise SqlError("comment for table is too long")
        return text or None

    def after_change(self, t: Tab) -> None:
        "Rules about a table as a whole."

        if self.d == "mysql":
            auto = [c for c in t.cols if c.identity]
            if len(auto) > 1:
                raise SqlError("there can be only one auto column")
            for c in auto:
                if not any(k.kind in "pu" and k.cols[0] == c.name for k in t.cons.values()):
                    raise SqlError("the auto column must be defined as a key")
            lowered = [c.name.lower() for c in t.cols]
            if len(set(lowered)) != len(lowered):
                raise SqlError("duplicate column name")
        if self.d == "mssql" and sum(c.identity for c in t.cols) > 1:
            raise SqlError("multiple identity columns")
        if self.d == "oracle" and sum(c.identity for c in t.cols) > 1:
            raise SqlError("ORA-30669: table can have only one identity column")

    def column_def(self, t: Tab, cons: list[Con]) -> Col:
        name = self.ident()
        self.db.check_name(name)
        if t.has(name):
            raise SqlError(f"column {name!r} specified more than once")
        col = Col(name, T.parse_type(self, self.db))
        self.column_options(t, col, cons)
        col.num = t.next_num
        t.next_num += 1
        t.cols.append(col)
        return col

    def column_options(self, t: Tab, col: Col, cons: list[Con]) -> None:
        null_given = False
        while True:
            cname = None
            if self.peek_word("CONSTRAINT"):
                self.next()
                cname = self.ident()
            if self.words("NOT", "NULL"):
                col.not_null = True
            elif self.accept_word("NULL"):
                null_given = True
            elif self.accept_word("DEFAULT"):
                start = self.i
                e = self.expr_unary()
                if expr_columns(e):
                    raise SqlError("cannot use column reference in DEFAULT expression")
                self.set_default(t, col, e, self.text_between(start), cname)
                cname = None
            elif self.accept_word("PRIMARY"):
                self.expect_word("KEY")
                cons.append(Con(cname or f"pk_{t.name}_{col.name}", "p", (col.name,)))
                cname = None
            elif self.accept_word("UNIQUE"):
                cons.append(Con(cname or f"{t.name}_{col.name}_key", "u", (col.name,)))
                cname = None
            elif self.accept_word("CHECK"):
                cons.append(self.check_def(cname or f"{t.name}_{col.name}_check"))
                cname = None
            elif self.accept_word("REFERENCES"):
                cons.append(self.ref_def(cname or f"{t.name}_{col.name}_fkey", (col.name,)))
                cname = None
            elif self.peek_word("GENERATED") and self.d in ("postgresql", "oracle"):
                self.next()
                if self.accept_word("ALWAYS") is None:
                    self.expect_word("BY")
                    self.expect_word("DEFAULT")
                    if self.accept_word("ON"):
                        self.expect_word("NULL")
                self.expect_word("AS")
                self.expect_word("IDENTITY")
                self.set_identity(col)
            elif self.peek_word("IDENTITY") and self.d == "mssql":
                self.next()
                T._size(self)
                self.set_identity(col)
            elif self.peek_word("AUTO_INCREMENT") and self.d == "mysql":
                self.next()
                self.set_identity(col)
            elif self.peek_word("COMMENT") and self.d == "mysql":
                self.next()
                text = self.expect_kind("str").value
                if len(text) > 1024:
                    raise SqlError("comment for field is too long")
                col.comment = text or None
            else:
                if cname is not None:
                    raise SqlError("syntax error after CONSTRAINT")
                break
        if null_given and col.not_null:
            raise SqlError("conflicting NULL/NOT NULL declarations")
        if col.identity:
            if col.default is not None:
                raise SqlError(f"both default and identity specified for column {col.name!r}")
            if null_given:
                raise SqlError("identity column cannot be nullable")
            col.not_null = True

    def set_identity(self, col: Col) -> None:
        if col.typ[0] == "int" and (self.d != "postgresql" or col.typ[1] >= 2):
            pass
        elif self.d in ("mssql", "oracle") and col.typ[0] in ("dec", "number"):
            pass
        else:
            raise SqlError(f"identity column type must be an integer type: {col.typ!r}")
        col.identity = True

    def set_default(self, t: Tab, col: Col, e: Any, text: str, cname: Optional[str]) -> None:
        d = self.d
        if d == "mysql" and col.typ[0] in ("mtext", "mblob", "json") and e != ("lit", None):
            if not text.startswith("("):
                raise SqlError(f"BLOB, TEXT, GEOMETRY or JSON column {col.name!r} can't have a default value")
        value = evaluate(e, Env(self.db, {}))
        # a default that can never be stored is refused
        T.assign(col.typ, value, self.db, "literal")
        if d == "mssql":
            cname = cname or f"DF__{t.name}__{col.name}"
            if cname in self.db.constraint_names(self.db.schemas[t.schema]) or any(c.default_name == cname for c in t.cols):
                raise SqlError(f"there is already an object named {cname!r} in the database")
            col.default_name = cname
        if value is None and d != "mssql":
            col.default = None
        else:
            col.default = (e, text)

    def constraint_def(self, t: Tab) -> Con:
        cname = None
        if self.accept_word("CONSTRAINT"):
            cname = self.ident()
        if self.accept_word("PRIMARY"):
            self.expect_word("KEY")
            cols = self.id_list()
            return Con("PRIMARY" if self.d == "mysql" else cname or f"{t.name}_pkey", "p", cols)
        if self.accept_word("UNIQUE"):
            if self.d == "mysql":
                self.accept_word("KEY", "INDEX")
            cols = self.id_list()
            return Con(cname or f"{t.name}_{'_'.join(cols)}_key", "u", cols)
        if self.accept_word("FOREIGN"):
            self.expect_word("KEY")
            cols = self.id_list()
            self.expect_word("REFERENCES")
            return self.ref_def(cname or f"{t.name}_{'_'.join(cols)}_fkey", cols)
        if self.accept_word("CHECK"):
            return self.check_def(cname or f"{t.name}_check")
        raise SqlError(f"syntax error at or near {self.peek()!r}")

    def ref_def(self, cname: str, cols: tuple) -> Con:
        schema, name = self.qname()
        target = self.db.schema(schema)
        columns = self.id_list() if self.peek_op("(") else None
        while self.accept_word("ON"):
            self.expect_word("DELETE", "UPDATE")
            if self.accept_word("NO"):
                self.expect_word("ACTION")
            else:
                self.expect_word("RESTRICT")
        return Con(cname, "f", cols, (target.name, name, columns))

    def check_def(self, cname: str) -> Con:
        self.expect_op("(")
        start = self.i
        e = self.expr()
        text = self.text_between(start)
        self.expect_op(")")
        return Con(cname, "c", tuple(sorted(expr_columns(e))), expr=e, text=text)

    def do_comment(self) -> None:
        if self.d not in ("postgresql", "oracle"):
            raise SqlError("COMMENT ON not supported")
        self.expect_word("ON")
        kind = self.expect_word("TABLE", "COLUMN", "TYPE")
        if kind == "COLUMN":
            parts = [self.ident()]
            while self.accept_op("."):
                parts.append(self.ident())
            if len(parts) not in (2, 3):
                raise SqlError("column name must be qualified")
            schema = parts[0] if len(parts) == 3 else None
            owner, name = parts[-2:]
            s = self.db.schema(schema)
            if owner in s.tables:
                target: Any = s.tables[owner].col(name)
            elif owner in s.structs:
                found = [m for m in s.structs[owner].members if m.name == name]
                if not found:
                    raise SqlError(f"column {name!r} of relation {owner!r} does not exist")
                target = found[0]
            else:
                raise SqlError(f"relation {owner!r} does not exist")
        else:
            schema, name = self.qname()
            if kind == "TABLE":
                target = self.db.table(schema, name)
            else:
                if self.d != "postgresql":
                    raise SqlError("COMMENT ON TYPE not supported")
                s = self.db.schema(schema)
                if name in s.structs:
                    target = s.structs[name]
                elif name in s.enums or name in s.tables:
                    raise SqlError("comment on this kind of type not modelled")
                else:
                    raise SqlError(f"type {name!r} does not exist")
        self.expect_word("IS")
        if self.accept_word("NULL"):
            if self.d == "oracle":
                raise SqlError("ORA-01780: string literal required")
            target.comment = None
        else:
            target.comment = self.expect_kind("str").value or None

    # alter

    def do_alter(self) -> None:
        kind = self.expect_word("TABLE", "TYPE")
        if kind == "TYPE":
            self.alter_type()
        else:
            self.alter_table()

    def alter_type(self) -> None:
        if self.d != "postgresql":
            raise SqlError("ALTER TYPE not supported")
        schema, name = self.qname()
        s = self.db.schema(schema)
        if name in s.enums:
            en = s.enums[name]
            if self.words("RENAME", "TO"):
                new = self.ident()
                self.db.check_new_object(s, new)
                self.rename_type(("enum", s.name, name), ("enum", s.name, new))
                del s.enums[name]
                en.name = new
                s.enums[new] = en
            elif self.words("ADD", "VALUE"):
                exists_ok = self.words("IF", "NOT", "EXISTS")
                v = self.expect_kind("str").value
                self.check_label(v)
                if v in en.values:
                    if exists_ok:
                        return
                    raise SqlError(f"enum label {v!r} already exists")
                pos = len(en.values)
                where = self.accept_word("BEFORE", "AFTER")
                if where:
                    n = self.expect_kind("str").value
                    if n not in en.values:
                        raise SqlError(f"{n!r} is not an existing enum label")
                    pos = en.values.index(n) + (1 if where == "AFTER" else 0)
                en.values.insert(pos, v)
            else:
                raise SqlError(f"ALTER TYPE {self.peek()!r} not modelled")
            return
        if name not in s.structs:
            raise SqlError(f"type {name!r} does not exist")
        st = s.structs[name]
        users = self.db.type_users(("struct", s.name, name))
        if self.words("RENAME", "TO"):
            raise SqlError("renaming of composite types not modelled")
        while True:
            op = self.expect_word("DROP", "ADD", "ALTER")
            self.expect_word("ATTRIBUTE")
            if op == "ADD":
                before = len(st.members)
                self.add_member(st, s)
                self.each_struct_value(("struct", s.name, name), lambda v: v + (None,))
                assert len(st.members) == before + 1
            else:
                mname = self.ident()
                idx = [i for i, m in enumerate(st.members) if m.name == mname]
                if not idx:
                    raise SqlError(f"column {mname!r} of relation {name!r} does not exist")
                i = idx[0]
                if op == "DROP":
                    del st.members[i]
                    self.each_struct_value(("struct", s.name, name), lambda v: v[:i] + v[i + 1 :])
                else:
                    if not (self.words("SET", "DATA", "TYPE") or self.accept_word("TYPE")):
                        raise SqlError(f"syntax error at or near {self.peek()!r}")
                    typ = T.parse_type(self, self.db)
                    if users:
                        raise SqlError(f"cannot alter type {name!r} because {users[0]} uses it")
                    st.members[i].typ = typ
            if not self.accept_op(","):
                break

    def each_struct_value(self, typ: tuple, fn: Any) -> None:
        def change(t: tuple, v: Any) -> Any:
            if v is None:
                return None
            if t == typ:
                return fn(v)
            if t[0] == "array":
                return tuple(change(t[1], x) for x in v)
            if t[0] == "struct":
                ms = self.db.schemas[t[1]].structs[t[2]].members
                return tuple(change(m.typ, x) for m, x in zip(ms, v))
            return v

        for t in self.db.tables():
            for c in t.cols:
                if c.typ[0] in ("struct", "array"):
                    for r in t.rows:
                        r[c.name] = change(c.typ, r[c.name])

    def rename_type(self, old: tuple, new: tuple) -> None:
        def sub(t: tuple) -> tuple:
            if t == old:
                return new
            return ("array", sub(t[1])) if t[0] == "array" else t

        for s in self.db.schemas.values():
            for t in s.tables.values():
                for c in t.cols:
                    c.typ = sub(c.typ)
            for st in s.structs.values():
                for m in st.members:
                    m.typ = sub(m.typ)

    def alter_table(self) -> None:
        exists = self.words("IF", "EXISTS")
        schema, name = self.qname()
        t = self.db.schema(schema).tables.get(name)
        if t is None and exists:
            self.i = len(self.toks)
            return
        t = self.db.table(schema, name)
        d = self.d
        actions: list[tuple] = []
        while True:
            actions.append(self.alter_action(t))
            if d == "mssql" and actions[-1][0] in ("add_many", "drop_many"):
                break
            if not self.accept_op(","):
                break
        if d in ("mssql", "oracle") and len(actions) > 1:
            raise SqlError(f"syntax error near ',': one action per ALTER TABLE ({d})")
        if any(a[0] == "rename" for a in actions) and d == "postgresql" and len(actions) > 1:
            raise SqlError("syntax error: RENAME cannot be combined with other actions")
        flat: list[tuple] = []
        for a in actions:
            flat.extend(a[1] if a[0] in ("add_many", "drop_many") else [a])
        self.apply_actions(t, flat)

    def alter_action(self, t: Tab) -> tuple:
        d = self.d
        if self.accept_word("ADD"):
            if d == "mssql":
                items: list[tuple] = []
                if self.peek_word("COLUMN") :
                    raise SqlError("syntax error near 'COLUMN'")
                while True:
                    if self.peek_word("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "CHECK") or self.peek_word("DEFAULT"):
                        items.append(self.add_constraint_action(t))
                    else:
                        items.append(self.add_column_action(t))
                    if not self.accept_op(","):
                        return ("add_many", items)
            if self.peek_word("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "CHECK"):
                return self.add_constraint_action(t)
            self.accept_word("COLUMN")
            if d == "oracle" and self.peek_op("("):
                raise SqlError("ADD (...) not modelled")
            return self.add_column_action(t)
        if self.accept_word("DROP"):
            if d == "mssql":
                items = []
                kind = None
                while True:
                    if self.accept_word("CONSTRAINT"):
                        kind = "con"
                    elif self.accept_word("COLUMN"):
                        kind = "col"
                    elif kind is None:
                        kind = "con"
                    self.words("IF", "EXISTS")
                    items.append(("drop_con" if kind == "con" else "drop_col", self.ident()))
                    if not self.accept_op(","):
                        return ("drop_many", items)
            if self.accept_word("CONSTRAINT"):
                self.words("IF", "EXISTS")
                name = self.ident()
                self.accept_word("CASCADE", "RESTRICT")
                return ("drop_con", name)
            if d == "mysql" and self.accept_word("FOREIGN"):
                self.expect_word("KEY")
                return ("drop_con", self.ident())
            if d == "mysql" and self.accept_word("INDEX", "KEY", "CHECK"):
                return ("drop_con", self.ident())
            if self.accept_word("PRIMARY"):
                self.expect_word("KEY")
                return ("drop_con", t.primary.name if t.primary else "PRIMARY")
            if d == "oracle":
                self.expect_word("COLUMN")
            else:
                self.accept_word("COLUMN")
            self.words("IF", "EXISTS")
            name = self.ident()
            cascade = bool(self.accept_word("CASCADE"))
            if cascade and d == "oracle":
                self.expect_word("CONSTRAINTS")
            return ("drop_col", name, cascade)
        if self.accept_word("RENAME"):
            if d == "mssql":
                raise SqlError("syntax error near 'RENAME'")
            if self.accept_word("TO"):
                raise SqlError("renaming of tables not modelled")
            self.accept_word("COLUMN")
            old = self.ident()
            self.expect_word("TO")
            return ("rename", old, self.ident())
        if d == "mysql" and self.accept_word("CHANGE"):
            self.accept_word("COLUMN")
            return self.modify_action(t, self.ident(), True)
        if d == "mysql" and self.accept_word("MODIFY"):
            self.accept_word("COLUMN")
            name = self.peek().value
            return self.modify_action(t, name, False)
        if d == "mysql" and self.accept_word("COMMENT"):
            self.accept_op("=")
            return ("comment", self.table_comment(self.expect_kind("str").value))
        if d == "oracle" and self.accept_word("MODIFY"):
            return self.oracle_modify(t)
        if self.accept_word("ALTER"):
            if d == "oracle":
                raise SqlError("ORA-01735: invalid ALTER TABLE option")
            if d == "mssql":
                self.expect_word("COLUMN")
                name = self.ident()
                typ = T.parse_type(self, self.db)
                not_null = False
                if self.words("NOT", "NULL"):
                    not_null = True
                else:
                    self.accept_word("NULL")
                return ("mssql_alter", name, typ, not_null)
            self.accept_word("COLUMN")
            name = self.ident()
            if d == "mysql":
                if self.words("DROP", "DEFAULT"):
                    return ("drop_default", name)
                if self.words("SET", "DEFAULT"):
                    start = self.i
                    e = self.expr_unary()
                    return ("set_default", name, e, self.text_between(start))
                raise SqlError(f"syntax error near {self.peek()!r}")
            if self.words("SET", "DATA", "TYPE") or self.accept_word("TYPE"):
                typ = T.parse_type(self, self.db)
                using = None
                if self.accept_word("USING"):
                    using = self.expr_unary()
                return ("set_type", name, typ, using)
            if self.words("SET", "NOT", "NULL"):
                return ("set_not_null", name)
            if self.words("DROP", "NOT", "NULL"):
                return ("drop_not_null", name)
            if self.words("SET", "DEFAULT"):
                start = self.i
                e = self.expr_unary()
                return ("set_default", name, e, self.text_between(start))
            if self.words("DROP", "DEFAULT"):
                return ("drop_default", name)
            if self.words("DROP", "IDENTITY"):
                if self.words("IF", "EXISTS"):
                    pass
                return ("drop_identity", name)
            if self.words("ADD", "GENERATED"):
                if self.accept_word("ALWAYS") is None:
                    self.expect_word("BY")
                    self.expect_word("DEFAULT")
                self.expect_word("AS")
                self.expect_word("IDENTITY")
                return ("add_identity", name)
        raise SqlError(f"syntax error at or near {self.peek()!r}")

    def add_column_action(self, t: Tab) -> tuple:
        cons: list[Con] = []
        probe = Tab(t.schema, t.name, next_num=0)
        col = self.column_def(probe, cons)
        return ("add_col", col, cons)

    def add_constraint_action(self, t: Tab) -> tuple:
        if self.d == "mssql":
            # CONSTRAINT name DEFAULT value FOR column
            save = self.i
            cname = None
            if self.accept_word("CONSTRAINT"):
                cname = self.ident()
            if self.accept_word("DEFAULT"):
                start = self.i
                e = self.expr_unary()
                text = self.text_between(start)
                self.expect_word("FOR")
                return ("mssql_default", self.ident(), e, text, cname)
            self.i = save
        return ("add_con", self.constraint_def(t))

    def modify_action(self, t: Tab, old: str, change: bool) -> tuple:
        probe = Tab(t.schema, t.name, next_num=0)
        cons: list[Con] = []
        col = self.column_def(probe, cons)
        if cons:
            raise SqlError("key in MODIFY not modelled")
        return ("modify", old, col)

    def oracle_modify(self, t: Tab) -> tuple:
        paren = self.accept_op("(")
        name = self.ident()
        changes: list[tuple] = []
        while not self.at_end() and not self.peek_op(";") and not self.peek_op(")"):
            if self.accept_word("DEFAULT"):
                start = self.i
                e = self.expr_unary()
                changes.append(("default", e, self.text_between(start)))
            elif self.words("NOT", "NULL"):
                changes.append(("not_null", True))
            elif self.accept_word("NULL"):
                changes.append(("not_null", False))
            elif self.accept_word("GENERATED"):
                if self.accept_word("ALWAYS") is None:
                    self.expect_word("BY")
                    self.expect_word("DEFAULT")
                self.expect_word("AS")
                self.expect_word("IDENTITY")
                changes.append(("identity", True))
            elif self.words("DROP", "IDENTITY"):
                changes.append(("identity", False))
            else:
                changes.append(("type", T.parse_type(self, self.db)))
        if paren:
            self.expect_op(")")
        return ("oracle_modify", name, changes)

    # passes of ALTER TABLE
    PG_PASS = {
        "drop_col": 1, "drop_con": 1, "drop_default": 1, "drop_not_null": 1, "drop_identity": 1, "set_type": 2,
        "add_col": 3, "set_not_null": 4, "set_default": 6, "add_identity": 6, "rename": 1,
    }
    MY_PASS = {"drop_con": 1, "drop_col": 2, "modify": 3, "rename": 3, "drop_default": 3, "set_default": 3, "add_col": 4, "add_con": 5, "comment": 6}

    def apply_actions(self, t: Tab, actions: list[tuple]) -> None:
        def order(a: tuple) -> int:
            if self.d == "postgresql":
                if a[0] == "add_con":
                    return 5 if a[1].kind in "pu" else 6
                return self.PG_PASS[a[0]]
            if self.d == "mysql":
                return self.MY_PASS[a[0]]
            return 0

        if self.d == "mysql":
            self.mysql_precheck(t, actions)
        for a in sorted(actions, key=order):
            getattr(self, "alter_" + a[0])(t, *a[1:])
        if self.d == "mssql" and all(a[0] == "add_col" for a in actions):
            pass
        self.after_change(t)

    def mysql_precheck(self, t: Tab, actions: list[tuple]) -> None:
        touched = [a[1] for a in actions if a[0] in ("drop_col", "modify", "rename")]
        if len(set(touched)) != len(touched):
            raise SqlError(f"unknown column in {t.name!r}: column changed twice in one ALTER TABLE")

    def alter_add_col(self, t: Tab, col: Col, cons: list[Con]) -> None:
        if t.has(col.name):
            raise SqlError(f"column {col.name!r} of relation {t.name!r} already exists")
        if self.d == "mssql" and col.default_name:
            if col.default_name in self.db.constraint_names(self.db.schemas[t.schema]):
                raise SqlError(f"there is already an object named {col.default_name!r} in the database")
        col.num = t.next_num
        t.next_num += 1
        t.cols.append(col)
        for r in t.rows:
            if col.identity:
                r[col.name] = t.next_id
                t.next_id += 1
            elif col.default is not None and (self.d != "mssql" or col.not_null):
                r[col.name] = T.assign(col.typ, evaluate(col.default[0], Env(self.db, {})), self.db, "literal")
            elif col.not_null:
                if self.d != "mysql":
                    raise SqlError(f"column {col.name!r} of relation {t.name!r} contains null values")
                r[col.name] = T.nullable_default(col.typ, self.db)
            else:
                r[col.name] = None
        for con in cons:
            self.db.add_constraint(t, con)

    def remove_column(self, t: Tab, col: Col) -> None:
        t.cols.remove(col)
        t.dropped.append(col.num)
        for r in t.rows:
            r.pop(col.name, None)

    def alter_drop_col(self, t: Tab, name: str, cascade: bool = False) -> None:
        d = self.d
        col = t.col(name)
        cons = [c for c in t.cons.values() if name in c.cols]
        refs = [
            (o, c) for o in self.db.tables() for c in o.cons.values()
            if c.kind == "f" and c.ref[:2] == (t.schema, t.name) and name in c.ref[2]
        ]
        outside = [(o, c) for o, c in refs if not (o is t and name in c.cols)]
        if d == "postgresql":
            if any(o is not t for o, c in outside) and not cascade:
                raise SqlError(f"cannot drop column {name!r} because other objects depend on it: {outside[0][1].name}")
            for o, c in outside:
                o.cons.pop(c.name, None)
            for c in cons:
                t.cons.pop(c.name, None)
        elif d == "mysql":
            for c in cons:
                if c.kind == "f":
                    raise SqlError(f"cannot drop column {name!r}: needed in a foreign key constraint {c.name!r}")
                if c.kind == "c":
                    if len(c.cols) > 1:
                        raise SqlError(f"check constraint {c.name!r} uses column {name!r}")
                    del t.cons[c.name]
                elif c.kind in "pu":
                    c.cols = tuple(x for x in c.cols if x != name)
                    if not c.cols:
                        del t.cons[c.name]
            if refs:
                raise SqlError(f"cannot drop column {name!r}: needed in a foreign key constraint of another table")
        elif d == "mssql":
            if cons or col.default_name:
                raise SqlError(
                    f"the object {(cons[0].name if cons else col.default_name)!r} is dependent on column {name!r}"
                )
        else:
            for c in cons:
                if len(c.cols) > 1 and not cascade:
                    raise SqlError(f"ORA-12991: column {name!r} is referenced in a multi-column constraint")
            if outside and not cascade:
                raise SqlError("ORA-12992: cannot drop parent key column")
            for c in cons:
                del t.cons[c.name]
        if len(t.cols) == 1:
            if d != "postgresql":
                raise SqlError("cannot drop all columns in a table")
        self.remove_column(t, col)

    def alter_drop_con(self, t: Tab, name: str) -> None:
        if self.d == "mssql":
            for c in t.cols:
                if c.default_name == name:
                    c.default = None
                    c.default_name = None
                    return
        if self.d == "mysql":
            # a name may denote a unique and a foreign key of the table
            found = [c for c in t.cons.values() if c.name.lower() == name.lower()]
            if len(found) > 1:
                raise SqlError(f"table has multiple constraints with the name {name!r}")
            con = found[0] if found else None
        else:
            con = t.cons.get(name)
        if con is None:
            raise SqlError(f"constraint {name!r} of relation {t.name!r} does not exist")
        if con.kind in "pu":
            for o in self.db.tables():
                for c in o.cons.values():
                    if c.kind == "f" and c.ref[:2] == (t.schema, t.name) and sorted(c.ref[2]) == sorted(con.cols):
                        others = [
                            k for k in t.cons.values()
                            if k is not con and k.kind in "pu" and sorted(k.cols) == sorted(con.cols)
                        ]
                        if not others:
                            raise SqlError(f"cannot drop constraint {name!r}: foreign key {c.name!r} depends on it")
        del t.cons[con.name]

    def alter_add_con(self, t: Tab, con: Con) -> None:
        self.db.add_constraint(t, con)

    def alter_rename(self, t: Tab, old: str, new: str) -> None:
        col = t.col(old)
        if t.has(new):
            raise SqlError(f"column {new!r} already exists")
        self.db.check_name(new)
        self.rename_column(t, col, new)

    def rename_column(self, t: Tab, col: Col, new: str) -> None:
        old = col.name
        col.name = new

        def sub(cols: tuple) -> tuple:
            return tuple(new if c == old else c for c in cols)

        for c in t.cons.values():
            c.cols = sub(c.cols)
            if c.expr is not None:
                c.expr = self.sub_expr(c.expr, old, new)
        for o in self.db.tables():
            for c in o.cons.values():
                if c.kind == "f" and c.ref[:2] == (t.schema, t.name):
                    c.ref = (c.ref[0], c.ref[1], sub(c.ref[2]))
        for i, r in enumerate(t.rows):
            t.rows[i] = {(new if k == old else k): v for k, v in r.items()}

    def sub_expr(self, e: Any, old: str, new: str) -> Any:
        if isinstance(e, tuple):
            if e and e[0] == "col" and e[2] == old:
                return ("col", e[1], new)
            return tuple(self.sub_expr(x, old, new) for x in e)
        return e

    def alter_comment(self, t: Tab, text: Optional[str]) -> None:
        t.comment = text

    def retype(self, t: Tab, col: Col, typ: tuple) -> None:
        if typ == col.typ:
            return
        old = col.typ
        for r in t.rows:
            r[col.name] = T.convert(old, typ, r[col.name], self.db)
        col.typ = typ
        for c in t.cons.values():
            if col.name in c.cols and c.kind in "pu" and not T.is_keyable(typ, self.d):
                raise SqlError(f"column {col.name!r} of type {typ!r} cannot be a key")
        for o in self.db.tables():
            for c in o.cons.values():
                if c.kind != "f":
                    continue
                target = self.db.schemas[c.ref[0]].tables[c.ref[1]]
                if (o is t and col.name in c.cols) or (target is t and col.name in c.ref[2]):
                    for a, b in zip(c.cols, c.ref[2]):
                        if not T.fk_compatible(o.col(a).typ, target.col(b).typ, self.d):
                            raise SqlError(f"foreign key constraint {c.name!r} cannot be implemented: incompatible types")

    def alter_set_type(self, t: Tab, name: str, typ: tuple, using: Any = None) -> None:
        col = t.col(name)
        if using is not None:
            for r in t.rows:
                r[name] = T.assign(typ, evaluate(using, Env(self.db, {None: (t, r)})), self.db, "literal")
            if col.default is not None and not T.can_cast(col.typ, typ, self.d):
                raise SqlError(f"default for column {name!r} cannot be cast automatically to type {typ!r}")
            col.typ = typ
            return
        if not T.can_cast(col.typ, typ, self.d):
            raise SqlError(f"column {name!r} cannot be cast automatically to type {typ!r}")
        if col.identity and not (typ[0] == "int"):
            raise SqlError("identity column type must be smallint, integer, or bigint")
        if col.default is not None:
            T.assign(typ, evaluate(col.default[0], Env(self.db, {})), self.db, "literal")
        self.retype(t, col, typ)
        self.db.check_rows(t)

    def alter_set_not_null(self, t: Tab, name: str) -> None:
        col = t.col(name)
        if any(r[name] is None for r in t.rows):
            raise SqlError(f"column {name!r} of relation {t.name!r} contains null values")
        col.not_null = True

    def alter_drop_not_null(self, t: Tab, name: str) -> None:
        col = t.col(name)
        if t.primary is not None and name in t.primary.cols:
            raise SqlError(f"column {name!r} is in a primary key")
        if col.identity:
            raise SqlError(f"column {name!r} is an identity column")
        col.not_null = False

    def alter_set_default(self, t: Tab, name: str, e: Any, text: str) -> None:
        col = t.col(name)
        if col.identity:
            raise SqlError(f"column {name!r} of relation {t.name!r} is an identity column")
        self.set_default(t, col, e, text, None)

    def alter_drop_default(self, t: Tab, name: str) -> None:
        col = t.col(name)
        if col.identity:
            raise SqlError(f"column {name!r} of relation {t.name!r} is an identity column")
        col.default = None

    def alter_drop_identity(self, t: Tab, name: str) -> None:
        col = t.col(name)
        if not col.identity:
            raise SqlError(f"column {name!r} is not an identity column")
        col.identity = False

    def alter_add_identity(self, t: Tab, name: str) -> None:
        col = t.col(name)
        if col.identity:
            raise SqlError(f"column {name!r} is already an identity column")
        if col.default is not None:
            raise SqlError(f"column {name!r} already has a default value")
        if not col.not_null:
            raise SqlError(f"column {name!r} must be declared NOT NULL before identity can be added")
        self.set_identity(col)

    def alter_modify(self, t: Tab, old: str, new: Col) -> None:
        "MySQL: MODIFY COLUMN and CHANGE redefine a column as a whole."

        col = t.col(old)
        if new.name != old:
            if t.has(new.name):
                raise SqlError(f"duplicate column name {new.name!r}")
            self.rename_column(t, col, new.name)
        name = col.name
        in_pk = t.primary is not None and name in t.primary.cols
        if new.typ != col.typ:
            fk = [
                c for o in self.db.tables() for c in o.cons.values()
                if c.kind == "f" and ((o is t and name in c.cols) or (c.ref[:2] == (t.schema, t.name) and name in c.ref[2]))
            ]
            if fk and not (new.typ[0] == col.typ[0] and new.typ[0] in ("varchar", "varbinary")):
                raise SqlError(f"cannot change column {name!r}: used in a foreign key constraint {fk[0].name!r}")
            self.retype(t, col, new.typ)
        if in_pk:
            new.not_null = True
        if new.not_null and any(r[name] is None for r in t.rows):
            raise SqlError("data truncated: invalid use of NULL value")
        col.not_null = new.not_null
        col.default = new.default
        col.comment = new.comment
        if new.identity and not col.identity:
            t.next_id = max([r[name] for r in t.rows if r[name] is not None] + [0]) + 1
        col.identity = new.identity
        self.db.check_rows(t)

    def alter_mssql_alter(self, t: Tab, name: str, typ: tuple, not_null: bool) -> None:
        col = t.col(name)
        if typ != col.typ:
            longer = (
                typ[0] == col.typ[0] and typ[0] in ("varchar", "varbinary")
                and (typ[1] is not None and col.typ[1] is not None and typ[1] >= col.typ[1])
            )
            if not longer:
                for c in t.cons.values():
                    if name in c.cols:
                        raise SqlError(f"ALTER COLUMN {name} failed because {c.name!r} depends on it")
                for o, c in [(o, c) for o in self.db.tables() for c in o.cons.values()]:
                    if c.kind == "f" and c.ref[:2] == (t.schema, t.name) and name in c.ref[2]:
                        raise SqlError(f"ALTER COLUMN {name} failed because {c.name!r} depends on it")
                if col.default_name and typ[0] != col.typ[0]:
                    raise SqlError(f"ALTER COLUMN {name} failed because {col.default_name!r} depends on it")
            if col.identity and typ[0] not in ("int", "dec"):
                raise SqlError("identity column must be of an integer type")
            self.retype(t, col, typ)
        if not_null and any(r[name] is None for r in t.rows):
            raise SqlError(f"cannot insert the value NULL into column {name!r}")
        if not not_null and (col.identity or (t.primary is not None and name in t.primary.cols)):
            raise SqlError(f"ALTER COLUMN {name} failed: column cannot be nullable")
        col.not_null = not_null

    def alter_mssql_default(self, t: Tab, name: str, e: Any, text: str, cname: Optional[str]) -> None:
        col = t.col(name)
        if col.default_name:
            raise SqlError("column already has a DEFAULT bound to it")
        if col.identity:
            raise SqlError("defaults cannot be created on identity columns")
        self.set_default(t, col, e, text, cname)

    def alter_oracle_modify(self, t: Tab, name: str, changes: list[tuple]) -> None:
        col = t.col(name)
        if not changes:
            raise SqlError("ORA-01735: invalid ALTER TABLE option")
        for kind, *rest in changes:
            if kind == "type":
                typ = rest[0]
                if typ != col.typ:
                    same = typ[0] == col.typ[0] and typ[0] not in ("clob", "blob")
                    populated = any(r[name] is not None for r in t.rows)
                    if typ[0] in ("clob", "blob") or col.typ[0] in ("clob", "blob"):
                        if typ[0] != col.typ[0]:
                            raise SqlError("ORA-22858: invalid alteration of datatype")
                    elif not same and populated:
                        raise SqlError("ORA-01439: column to be modified must be empty to change datatype")
                    elif same and populated and typ[0] == "number":
                        old, new = col.typ, typ
                        if new[1] is not None and (old[1] is None or new[1] < old[1] or (new[2] or 0) < (old[2] or 0)):
                            raise SqlError("ORA-01440: column to be modified must be empty to decrease precision or scale")
                    self.retype(t, col, typ)
            elif kind == "default":
                self.set_default(t, col, rest[0], rest[1], None)
            elif kind == "not_null":
                if rest[0]:
                    if col.not_null:
                        raise SqlError("ORA-01442: column to be modified to NOT NULL is already NOT NULL")
                    self.alter_set_not_null(t, name)
                else:
                    if not col.not_null:
                        raise SqlError("ORA-01451: column to be modified to NULL cannot be modified to NULL")
                    if t.primary is not None and name in t.primary.cols or col.identity:
                        raise SqlError("ORA-01451: column to be modified to NULL cannot be modified to NULL")
                    col.not_null = False
            else:
                if rest[0] and not col.identity:
                    raise SqlError("ORA-30673: column to be modified is not an identity column")
                if not rest[0] and not col.identity:
                    raise SqlError("ORA-30673: column to be modified is not an identity column")
                col.identity = rest[0]

    # data manipulation

    def env(self, scopes: dict, extra: Optional[dict] = None) -> Env:
        return Env(self.db, scopes, self.params, extra)

    def value(self, e: Any, env: Env) -> tuple[Any, str]:
        "Value of an expression and where it comes from."

        return evaluate(e, env), ("param" if e[0] == "param" else "literal")

    def do_insert(self) -> int:
        self.expect_word("INTO")
        schema, name = self.qname()
        t = self.db.table(schema, name)
        cols = self.id_list() if self.peek_op("(") else tuple(c.name for c in t.cols)
        for c in cols:
            t.col(c)
        if len(set(cols)) != len(cols):
            raise SqlError("column specified more than once")
        rows: list[list[tuple[Any, str]]] = []
        if self.accept_word("VALUES"):
            while True:
                self.expect_op("(")
                row = []
                if not self.peek_op(")"):
                    while True:
                        if self.accept_word("DEFAULT"):
                            raise SqlError("DEFAULT not modelled")
                        row.append(self.value(self.expr(), self.env({})))
                        if not self.accept_op(","):
                            break
                self.expect_op(")")
                if len(row) != len(cols):
                    raise SqlError("INSERT has a different number of expressions than target columns")
                rows.append(row)
                if not self.accept_op(","):
                    break
        elif self.accept_word("SELECT"):
            for r in self.select_rows():
                rows.append([(v, "literal") for v in r])
                if len(r) != len(cols):
                    raise SqlError("INSERT has a different number of expressions than target columns")
        else:
            raise SqlError(f"syntax error at or near {self.peek()!r}")

        mode, target, sets = "error", None, []
        if self.d == "postgresql" and self.words("ON", "CONFLICT"):
            if self.peek_op("("):
                target = self.id_list()
                if not any(c.kind in "pu" and sorted(c.cols) == sorted(target) for c in t.cons.values()):
                    raise SqlError("there is no unique constraint matching the ON CONFLICT specification")
            self.expect_word("DO")
            if self.accept_word("NOTHING"):
                mode = "nothing"
            else:
                self.expect_word("UPDATE")
                self.expect_word("SET")
                if target is None:
                    raise SqlError("ON CONFLICT DO UPDATE requires inference specification")
                mode = "update"
                sets = self.set_list(t)
        elif self.d == "mysql" and self.words("ON", "DUPLICATE", "KEY", "UPDATE"):
            mode = "update"
            sets = self.set_list(t)

        touched: set[int] = set()
        for row in rows:
            values = {}
            for cname, (v, origin) in zip(cols, row):
                col = t.col(cname)
                if col.identity and self.d in ("mssql",):
                    pass
                values[cname] = T.assign(col.typ, v, self.db, origin) if v is not None else None
            new = self.db.insert_row(t, values, "literal")
            clash = None
            if mode != "error":
                for con in t.cons.values():
                    if con.kind not in "pu" or (target is not None and sorted(con.cols) != sorted(target)):
                        continue
                    key = tuple(new[c] for c in con.cols)
                    if any(k is None for k in key):
                        continue
                    for r in t.rows:
                        if tuple(r[c] for c in con.cols) == key:
                            clash = r
                            break
                    if clash is not None:
                        break
            if clash is None:
                t.rows.append(new)
                touched.add(id(new))
            elif mode == "update":
                if self.d == "postgresql" and id(clash) in touched:
                    raise SqlError("ON CONFLICT DO UPDATE command cannot affect row a second time")
                extra = {"excluded": new, "VALUES()": new}
                before = dict(clash)
                for cname, e in sets:
                    scope = clash if self.d == "mysql" else before
                    v = evaluate(e, self.env({None: (t, scope)}, extra))
                    clash[cname] = T.assign(t.col(cname).typ, v, self.db, "literal")
                    if clash[cname] is None and t.col(cname).not_null:
                        raise SqlError(f"null value in column {cname!r} violates not-null constraint")
                touched.add(id(clash))
            if len(rows) > 1 and self.d in ("postgresql", "mysql"):  # uniqueness is checked as each row is written
                self.db.check_rows(t, [c for c in t.cons.values() if c.kind in "pu"])
        self.db.check_all(t)
        return len(rows)

    def set_list(self, t: Tab) -> list[tuple[str, Any]]:
        out = []
        while True:
            name = self.ident()
            if self.accept_op("."):
                name = self.ident()
            t.col(name)
            self.expect_op("=")
            out.append((name, self.expr()))
            if not self.accept_op(","):
                return out

    def alias(self) -> Optional[str]:
        if self.accept_word("AS"):
            return self.ident()
        t = self.peek()
        if t.kind == "id" or (
            t.kind == "word"
            and t.value.upper() not in ("SET", "WHERE", "JOIN", "FROM", "ON", "ORDER", "USING", "INNER", "LEFT", "WHEN", "GROUP", "LIMIT")
        ):
            return self.ident()
        return None

    def do_update(self) -> int:
        schema, name = self.qname()
        t = self.db.table(schema, name)
        scopes: dict = {self.alias(): t}
        joins = []
        if self.d == "mysql":
            while self.accept_word("JOIN", "INNER"):
                self.accept_word("JOIN")
                s2, n2 = self.qname()
                o = self.db.table(s2, n2)
                scopes[self.alias()] = o
                self.expect_word("ON")
                joins.append(self.expr())
        self.expect_word("SET")
        sets = []
        while True:
            cname = self.ident()
            if self.accept_op("."):
                if self.d == "postgresql":
                    raise SqlError(f"column {cname!r} of relation {t.name!r} does not exist")
                cname = self.ident()
            t.col(cname)
            self.expect_op("=")
            sets.append((cname, self.expr()))
            if not self.accept_op(","):
                break
        if self.d in ("postgresql", "mssql") and self.accept_word("FROM"):
            while True:
                s2, n2 = self.qname()
                o = self.db.table(s2, n2)
                scopes[self.alias()] = o
                if not self.accept_op(","):
                    break
        where = self.expr() if self.accept_word("WHERE") else None
        conds = joins + ([where] if where is not None else [])

        def rows(names: list, bound: dict):
            if not names:
                if all(evaluate(c, self.env(bound)) is True for c in conds):
                    yield bound
                return
            table = scopes[names[0]]
            for r in table.rows:
                yield from rows(names[1:], {**bound, names[0]: (table, r)})

        first = next(iter(scopes))
        updates: dict[int, tuple[dict, dict]] = {}
        # names are checked even when there are no rows
        self.check_names(conds + [e for _, e in sets], {a: (x, {c.name: None for c in x.cols}) for a, x in scopes.items()})
        for bound in rows(list(scopes), {}):
            row = bound[first][1]
            if id(row) in updates:
                continue
            new = {}
            for cname, e in sets:
                v, origin = self.value(e, self.env(bound))
                new[cname] = T.assign(t.col(cname).typ, v, self.db, origin)
            updates[id(row)] = (row, new)
        for row, new in updates.values():
            row.update(new)
        self.db.check_all(t)
        return len(updates)

    def check_names(self, exprs: list, scopes: dict, extra: Optional[dict] = None) -> None:
        env = self.env(scopes, extra)

        def walk(e: Any) -> None:
            if isinstance(e, tuple):
                if e and e[0] == "col":
                    env.lookup(e[1], e[2])
                elif e and e[0] not in ("lit", "param"):
                    for x in e:
                        walk(x)

        for e in exprs:
            walk(e)

    def do_delete(self) -> int:
        self.accept_word("FROM")
        schema, name = self.qname()
        t = self.db.table(schema, name)
        where = self.expr() if self.accept_word("WHERE") else None
        if where is not None:
            self.check_names([where], {None: (t, {c.name: None for c in t.cols})})
            where = self.coerce_params(where, t)
        keep = [r for r in t.rows if where is not None and evaluate(where, self.env({None: (t, r)})) is not True]
        n = len(t.rows) - len(keep)
        t.rows[:] = keep
        for o, con in self.db.table_users(t):
            self.db.check_rows(o, [con])
        self.db.check_rows(t)
        return n

    def coerce_params(self, e: Any, t: Tab) -> Any:
        "Parameters compared with a column are bound with the type of the column."

        if isinstance(e, tuple) and e:
            if e[0] in ("cmp",) and e[2][0] == "col":
                return (e[0], e[1], e[2], self.coerce_value(e[3], t.col(e[2][2])))
            if e[0] == "in" and e[1][0] == "col":
                return (e[0], e[1], tuple(self.coerce_value(x, t.col(e[1][2])) for x in e[2]))
            if e[0] in ("and", "or", "not"):
                return (e[0],) + tuple(self.coerce_params(x, t) for x in e[1:])
        return e

    def coerce_value(self, e: Any, col: Col) -> Any:
        if e[0] in ("param", "lit"):
            v, origin = self.value(e, self.env({}))
            if v is None:
                return ("lit", None)
            return ("lit", T.assign(col.typ, v, self.db, origin))
        return e

    def select_rows(self) -> list[tuple]:
        distinct = bool(self.accept_word("DISTINCT"))
        star = False
        items: list[Any] = []
        if self.accept_op("*"):
            star = True
        else:
            while True:
                e = self.expr()
                if self.accept_word("AS"):
                    self.ident()
                items.append(e)
                if not self.accept_op(","):
                    break
        self.expect_word("FROM")
        schema, name = self.qname()
        t = self.db.table(schema, name)
        alias = self.alias()
        where = self.expr() if self.accept_word("WHERE") else None
        orders = []
        if self.words("ORDER", "BY"):
            while True:
                e = self.expr()
                orders.append((e, self.accept_word("ASC", "DESC") == "DESC"))
                if not self.accept_op(","):
                    break
        if star:
            items = [("col", None, c.name) for c in t.cols]
        self.names = [e[2] if e[0] == "col" else "?column?" for e in items]
        probe = {alias: (t, {c.name: None for c in t.cols})}
        self.check_names(items + ([where] if where is not None else []) + [o for o, _ in orders], probe)
        if where is not None:
            where = self.coerce_params(where, t)
        rows = [r for r in t.rows if where is None or evaluate(where, self.env({alias: (t, r)})) is True]
        for e, desc in reversed(orders):
            rows.sort(key=lambda r: _sort_key(evaluate(e, self.env({alias: (t, r)}))), reverse=desc)
        if not orders:
            # a database may return rows in any order
            rows = rows[::-1]
        out = [tuple(evaluate(e, self.env({alias: (t, r)})) for e in items) for r in rows]
        if distinct:
            seen: list[tuple] = []
            for r in out:
                if r not in seen:
                    seen.append(r)
            out = seen
        return out

    def do_select(self) -> tuple[list[str], list[tuple]]:
        rows = self.select_rows()
        return self.names, rows

    def do_merge(self) -> int:
        if self.d not in ("mssql", "oracle", "postgresql"):
            raise SqlError("MERGE not supported")
        self.accept_word("INTO")
        schema, name = self.qname()
        t = self.db.table(schema, name)
        alias = self.alias()
        self.expect_word("USING")
        self.expect_op("(")
        self.expect_word("VALUES")
        source: list[list[tuple[Any, str]]] = []
        while True:
            self.expect_op("(")
            row = [self.value(self.expr(), self.env({}))]
            while self.accept_op(","):
                row.append(self.value(self.expr(), self.env({})))
            self.expect_op(")")
            source.append(row)
            if not self.accept_op(","):
                break
        self.expect_op(")")
        self.accept_word("AS")
        salias = self.ident()
        cols = self.id_list()
        if any(len(r) != len(cols) for r in source):
            raise SqlError("number of source columns does not match")
        self.expect_word("ON")
        cond = self.expr()
        matched: Optional[tuple] = None
        inserted: Optional[tuple] = None
        while self.accept_word("WHEN"):
            if self.accept_word("MATCHED"):
                self.expect_word("THEN")
                self.expect_word("UPDATE")
                self.expect_word("SET")
                matched = tuple(self.set_list(t))
            else:
                self.expect_word("NOT")
                self.expect_word("MATCHED")
                self.expect_word("THEN")
                self.expect_word("INSERT")
                names = self.id_list()
                self.expect_word("VALUES")
                self.expect_op("(")
                exprs = [self.expr()]
                while self.accept_op(","):
                    exprs.append(self.expr())
                self.expect_op(")")
                if len(names) != len(exprs):
                    raise SqlError("number of INSERT columns and values does not match")
                for n in names:
                    t.col(n)
                inserted = (names, exprs)
        if self.d == "mssql" and not self.peek_op(";"):
            raise SqlError("a MERGE statement must be terminated by a semi-colon")
        if matched is None and inserted is None:
            raise SqlError("MERGE without an action")
        # the type of a parameter is that of the target column of the same name
        typed: list[dict[str, Any]] = []
        for row in source:
            r = {}
            for cname, (v, origin) in zip(cols, row):
                r[cname] = v if not t.has(cname) or v is None else T.assign(t.col(cname).typ, v, self.db, origin)
            typed.append(r)
        probe = {alias: (t, {c.name: None for c in t.cols}), salias: (None, dict.fromkeys(cols))}
        self.check_names([cond], probe)
        for cname, e in matched or ():
            self.check_names([e], probe)
            if self.d == "oracle" and cname in expr_columns_of(cond, alias):
                raise SqlError("ORA-38104: columns referenced in the ON Clause cannot be updated")
            if self.d == "mssql" and t.col(cname).identity:
                raise SqlError(f"cannot update identity column {cname!r}")
        if inserted is not None:
            self.check_names(list(inserted[1]), {salias: (None, dict.fromkeys(cols))})
        snapshot = list(t.rows)
        updates: list[tuple[dict, dict]] = []
        touched: set[int] = set()
        additions = []
        for r in typed:
            hit = [row for row in snapshot if evaluate(cond, self.env({alias: (t, row), salias: (None, r)})) is True]
            for row in hit:
                if matched is not None:
                    if id(row) in touched:
                        raise SqlError("the MERGE statement attempted to UPDATE the same row more than once")
                    touched.add(id(row))
                    new = {}
                    for cname, e in matched:
                        v = evaluate(e, self.env({alias: (t, row), salias: (None, r)}))
                        new[cname] = T.assign(t.col(cname).typ, v, self.db, "literal")
                    updates.append((row, new))
            if not hit and inserted is not None:
                values = {n: evaluate(e, self.env({salias: (None, r)})) for n, e in zip(*inserted)}
                additions.append(values)
        for row, new in updates:
            row.update(new)
        for values in additions:
            t.rows.append(self.db.insert_row(t, values, "literal"))
        self.db.check_all(t)
        return len(typed)

    def do_set(self) -> None:
        self.i = len(self.toks)

    def do_execute(self) -> None:
        raise SqlError("EXECUTE not modelled")


def expr_columns_of(e: Any, alias: Optional[str]) -> set[str]:
    if isinstance(e, tuple) and e:
        if e[0] == "col":
            return {e[2]} if e[1] == alias else set()
        if e[0] in ("lit", "param"):
            return set()
        out: set[str] = set()
        for x in e:
            out |= expr_columns_of(x, alias)
        return out
    return set()


def _sort_key(v: Any) -> tuple:
    return (v is None, str(type(v)), v if v is not None else 0)


# statement boundaries -----------------------------------------------------------------


def statements(sql: str, dialect: str, placeholders: bool = False) -> list[str]:
    "Splits a script into statements by the lexical rules of the database."

    toks = tokenize(sql, dialect, placeholders)
    if dialect == "oracle":
        # the driver passes exactly one statement, without its terminator
        return [sql]
    out = []
    start = 0
    pending = False
    for t in toks:
        if t.kind == "op" and t.value == ";":
            if pending:
                out.append(sql[start : t.pos + 1])
            start = t.pos + 1
            pending = False
        else:
            pending = True
    if pending:
        out.append(sql[start:])
    return out


# canonical form -----------------------------------------------------------------------


def canon_value(v: Any) -> Any:
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float) and v == int(v):
        return int(v)
    return v


def canon_expr(e: Any) -> Any:
    if isinstance(e, tuple):
        return tuple(canon_expr(x) for x in e)
    return canon_value(e)


def structure(db: Db, names: bool = False, order: bool = False) -> dict[str, Any]:
    """
    The schema of a database as plain data, without rows.

    :param names: Whether to include names of constraints.
    :param order: Whether to keep the order of columns, attributes and enumeration values.
    """

    def seq(items: list) -> list:
        return items if order else sorted(items, key=repr)

    out: dict[str, Any] = {}
    for s in db.schemas.values():
        tabs = {}
        for t in s.tables.values():
            cols = []
            for c in t.cols:
                default = None
                if c.default is not None:
                    default = canon_value(T.assign(c.typ, evaluate(c.default[0], Env(db, {})), db, "literal"))
                cols.append((c.name, c.typ, c.not_null, default, c.identity, c.comment))
            cons = []
            for k in t.cons.values():
                body: tuple
                if k.kind == "c":
                    body = ("c", canon_expr(k.expr))
                elif k.kind == "f":
                    body = ("f", k.cols, k.ref)
                else:
                    body = (k.kind, k.cols)
                cons.append(((k.name,) + body) if names and k.kind != "p" else body)
            tabs[t.name] = {"columns": seq(cols), "constraints": sorted(cons, key=repr), "comment": t.comment}
        out[s.name] = {
            "tables": tabs,
            "enums": {e.name: seq(list(e.values)) for e in s.enums.values()},
            "structs": {
                st.name: {"members": seq([(m.name, m.typ, m.comment) for m in st.members]), "comment": st.comment}
                for st in s.structs.values()
            },
        }
    return out


def contents(db: Db) -> dict[tuple[str, str], list]:
    return {
        (t.schema, t.name): sorted((tuple(sorted((k, repr(v)) for k, v in r.items())) for r in t.rows))
        for t in db.tables()
    }


def freeze(x: Any) -> Any:
    if isinstance(x, dict):
        return tuple(sorted(((k, freeze(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    return x
