"""
P16: discovery reads back exactly the schema in the database.

Databases are made with statements of the target dialect, without the library, over bounded universes of column types, keys,
constraints, names, enumerations and composite types, and by histories of synchronisations and alterations. In each of them, the
real discovery code reads the catalog of a model of the database server, and the result is compared with what is in the model.
"""

import itertools
from typing import Any, Iterator, Optional

from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import ForeignConstraint, Table, UniqueConstraint
from pysqlsync.model.data_types import SqlEnumType
from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

from ..core import HarnessError, Run, Stop, parallel
from ..db import drivers as D
from ..db import explore as X
from ..db import sqltypes as T
from ..db import world as W
from ..db.lexer import SqlError
from ..db.model import Db, Env, Parser, Tab, canon_value, evaluate
from ..db.universe import DEFAULT_SCHEMA, FLAT, M, Mode, Version

LEVEL = "model_checking"
RULE = (
    "dialect x order in which the server lists objects x (types of columns x nullability, default, comment; keys over ordered "
    "subsets of columns; references over ordered subsets and permutations; names of namespaces, tables and columns; enumerations "
    "and composite types; histories of alterations and synchronisations); non-trivial = a distinct database that is discovered"
)
ASSUMPTIONS = [
    "types that none of the library's type classes can express may be refused with an error",
    "check constraints are not part of the description",
    "on MySQL and Oracle, the namespace of a table is the part of its name ahead of the first two underscores",
    "names of tables with a dollar sign are those of system objects on Oracle",
]

QUOTES = {"postgresql": ('"', '"'), "mysql": ("`", "`"), "mssql": ("[", "]"), "oracle": ('"', '"')}


def q(dialect: str, name: str) -> str:
    left, right = QUOTES[dialect]
    return left + name.replace(right, right * 2) + right


def text(s: str, dialect: str = "") -> str:
    if dialect == "mysql":
        s = s.replace("\\", "\\\\")
    return "'" + s.replace("'", "''") + "'"


def full(dialect: str, ns: Optional[str], name: str) -> str:
    if dialect in FLAT:
        return q(dialect, f"{ns}__{name}" if ns is not None else name)
    return f"{q(dialect, ns or DEFAULT_SCHEMA[dialect])}.{q(dialect, name)}"


def identify(dialect: str, ns: Optional[str], name: str) -> Any:
    return PrefixedId(ns, name) if dialect in FLAT else QualifiedId(ns, name)


def place(dialect: str, ns: Optional[str], name: str) -> tuple[str, str]:
    if dialect in FLAT:
        return DEFAULT_SCHEMA[dialect], f"{ns}__{name}" if ns is not None else name
    return ns or DEFAULT_SCHEMA[dialect], name


def big(dialect: str) -> str:
    return "number(19)" if dialect == "oracle" else "bigint"


# comparison ------------------------------------------------------------------------------


def read_type(db: Db, data_type: Any) -> Any:
    if isinstance(data_type, SqlEnumType):
        return ("menum", tuple(data_type.values))  # the values themselves; a statement escapes them
    try:
        p = Parser(db, str(data_type))
        typ = T.parse_type(p, db)
        if not p.at_end():
            return f"not a type: {data_type}"
        return typ
    except SqlError as e:
        return f"not a type: {data_type}: {e}"


def read_default(db: Db, typ: tuple, expr: Optional[str]) -> Any:
    if expr is None:
        return None
    try:
        p = Parser(db, expr)
        e = p.expr()
        if not p.at_end():
            return f"not an expression: {expr}"
        return canon_value(T.assign(typ, evaluate(e, Env(db, {})), db, "literal"))
    except SqlError as e:
        return f"not an expression: {expr}: {e}"


def where(dialect: str, id: Any, current: str) -> tuple[str, str]:
    "Schema and name of an object that an identifier refers to."

    if isinstance(id, PrefixedId):
        return current, id.local_id
    return id.scope_id or current, id.local_id


# MySQL has several types for text and binary data, which the library tells apart by capacity
SAME = {("mtext", "tinytext"): ("varchar", 255), ("mtext", "text"): ("varchar", 65535),
        ("mblob", "tinyblob"): ("varbinary", 255), ("mblob", "blob"): ("varbinary", 65535)}

# types that no type class of the library describes
REFUSED = {("oracle", "binary_float"), ("oracle", "binary_double"), ("mssql", "uniqueidentifier")}


def table_problem(db: Db, t: Tab, found: Table) -> Optional[str]:
    if where(db.dialect, found.name, db.current) != (t.schema, t.name):
        return f"name: {found.name} instead of {(t.schema, t.name)}"
    if (found.description or None) != t.comment:
        return f"comment: {found.description!r} instead of {t.comment!r}"
    columns = list(found.columns.values())
    names = [c.name.id for c in columns]
    if names != [c.name for c in t.cols]:
        return f"columns: {names} instead of {[c.name for c in t.cols]}"
    for c, col in zip(columns, t.cols):
        typ = read_type(db, c.data_type)
        if typ != col.typ and typ != SAME.get(col.typ):
            return f"type: {col.name}: {typ!r} instead of {col.typ!r}"
        if c.nullable is not (not col.not_null):
            return f"nullable: {col.name}: {c.nullable}"
        if bool(c.identity) != col.identity:
            return f"identity: {col.name}: {c.identity}"
        want = None
        if col.default is not None:
            want = canon_value(T.assign(col.typ, evaluate(col.default[0], Env(db, {})), db, "literal"))
        have = read_default(db, col.typ, c.default)
        if have != want and not (have is None and want is None):
            return f"default: {col.name}: {c.default!r} ({have!r}) instead of {want!r}"
        if (c.description or None) != col.comment:
            return f"comment: {col.name}: {c.description!r} instead of {col.comment!r}"
    primary = tuple(k.id for k in found.primary_key)
    if primary != (t.primary.cols if t.primary is not None else ()):
        return f"primary key: {primary} instead of {t.primary.cols if t.primary is not None else ()}"
    want_cons = {}
    for con in t.cons.values():
        if con.kind == "u":
            want_cons[con.name] = ("u", tuple(con.cols))
        elif con.kind == "f":
            want_cons[con.name] = ("f", tuple(con.cols), con.ref[0], con.ref[1], tuple(con.ref[2]))
    have_cons: dict = {}
    for k in found.constraints.values():
        if k.name.id in have_cons:
            return f"constraint: {k.name.id} is found twice"
        if isinstance(k, UniqueConstraint):
            have_cons[k.name.id] = ("u", tuple(c.id for c in k.unique_columns))
        elif isinstance(k, ForeignConstraint):
            have_cons[k.name.id] = ("f", tuple(c.id for c in k.foreign_columns), *where(db.dialect, k.reference.table, db.current),
                                    tuple(c.id for c in k.reference.columns))
        else:
            have_cons[k.name.id] = (type(k).__name__,)
    if have_cons != want_cons:
        return f"constraint: {have_cons} instead of {want_cons}"
    return None


def namespace_problem(db: Db, ns: Optional[str], found: Any) -> Optional[str]:
    "What differs between the description of a namespace and the database."

    d = db.dialect
    if d in FLAT:
        s = db.schemas[DEFAULT_SCHEMA[d]]
        tables = {t.name: t for t in s.tables.values() if (t.name.startswith(f"{ns}__") if ns is not None else "__" not in t.name)}
        enums, structs = {}, {}
    else:
        schema = db.schemas.get(ns or DEFAULT_SCHEMA[d])
        tables = dict(schema.tables) if schema is not None else {}
        enums = dict(schema.enums) if schema is not None else {}
        structs = dict(schema.structs) if schema is not None else {}
    have = [where(d, t.name, db.current)[1] for t in found.tables.values()]
    if sorted(have) != sorted(tables):
        return f"tables: {sorted(have)} instead of {sorted(tables)}"
    have_enums = {e.name.local_id: list(e.values) for e in found.enums.values()}
    if have_enums != {e.name: list(e.values) for e in enums.values()} or any(
            where(d, e.name, db.current)[0] != (ns or DEFAULT_SCHEMA[d]) for e in found.enums.values()):
        return f"enumerations: {have_enums} instead of { {e.name: e.values for e in enums.values()} }"
    if sorted(s.name.local_id for s in found.structs.values()) != sorted(structs):
        return f"composite types: {sorted(s.name.local_id for s in found.structs.values())} instead of {sorted(structs)}"
    for st in found.structs.values():
        want = structs[st.name.local_id]
        if (st.description or None) != want.comment:
            return f"comment: {st.description!r} instead of {want.comment!r}"
        members = [(m.name.id, read_type(db, m.data_type), m.description or None) for m in st.members.values()]
        if members != [(m.name, m.typ, m.comment) for m in want.members]:
            return f"members: {want.name}: {members} instead of {[(m.name, m.typ, m.comment) for m in want.members]}"
    for t in found.tables.values():
        problem = table_problem(db, tables[where(d, t.name, db.current)[1]], t)
        if problem is not None:
            return f"{problem} (table {t.name})"
    return None


class Bench:
    "A database that is discovered."

    def __init__(self, run: Run, dialect: str, reverse: bool) -> None:
        self.run = run
        self.dialect = dialect
        self.session = W.Session(dialect, reverse=reverse)
        self.reverse = reverse
        self.db = self.session.server.db

    def execute(self, *stmts: str) -> bool:
        "False if the server refuses a statement."

        try:
            for s in stmts:
                self.session.server.statement(s)
        except SqlError:
            return False
        return True

    def call(self, action: Any) -> Any:
        version: Version = (M("zz", ()),)

        async def perform(ctx: Any, modules: dict) -> Any:
            return await action(get_dialect(self.dialect).create_explorer(ctx))

        return self.session.run(version, Mode(), perform)

    def discover(self, ns: Optional[str]) -> Any:
        async def action(explorer: Any) -> Any:
            if ns is None:
                return await explorer.get_namespace_current()
            return await explorer.get_namespace(LocalId(ns))

        return self.call(action)

    def check(self, ns: Optional[str], sig: str, what: Any) -> bool:
        "Compares the description of a namespace with the database."

        self.run.transition()
        with self.run.limit(sig):
            try:
                found = self.discover(ns)
                problem = namespace_problem(self.db, ns, found)
            except (Stop, HarnessError, SqlError):
                raise
            except Exception as e:
                problem = f"error: {W.cause(e)!r:.300}"
                parts = sig.split("/")
                if parts[1] == "types" and (self.dialect, parts[2]) in REFUSED and "unrecognized SQL type" in problem:
                    problem = None
            self.run.trace()
            self.run.state((self.dialect, self.reverse, sig, repr(what)))
            self.run.case((self.dialect, self.reverse, sig, repr(what)), "as in the database" if problem is None else "differs")
            if problem is not None:
                self.run.violation(f"{sig}/{problem.split(':')[0]}", f"{what!r:.600}: {problem:.600}",
                                   {"dialect": self.dialect, "reverse": self.reverse, "case": repr(what)[:2000], "problem": problem[:1000]})
                return False
        return True

    def clear(self) -> None:
        self.session = W.Session(self.dialect, reverse=self.reverse)
        self.db = self.session.server.db


# universes -------------------------------------------------------------------------------

NUMERIC = [None, "5", "-6", "0"]
STRING = [None, "'x'", "''", "'it''s'", "'a b'", "'(x)'", "'NULL'", "'5'", "'a::text'", "'a,b'"]


def column_types(dialect: str) -> Iterator[tuple[str, list]]:
    "(type, defaults)"

    if dialect == "postgresql":
        for t in ("smallint", "integer", "bigint"):
            yield t, NUMERIC
        yield "real", [None, "1.5", "-2.5"]
        yield "double precision", [None, "1.5", "-2.5"]
        for t in ("numeric", "numeric(10,2)", "numeric(5)", "decimal(38,10)"):
            yield t, [None, "1.5", "-3"]
        yield "boolean", [None, "TRUE", "FALSE"]
        for t in ("text", "varchar(1)", "varchar(10)", "varchar(255)", "char(1)", "char(3)"):
            yield t, [None] if t == "varchar(1)" or t.startswith("char") else STRING
        for t in ("timestamp", "timestamp(0)", "timestamp(3)", "timestamp(6)", "timestamp with time zone", "timestamp(3) with time zone"):
            yield t, [None, "now()"] if "with" in t else [None, "'2024-02-29 12:30:00'", "now()", "CURRENT_TIMESTAMP"]
        for t in ("time", "time(0)", "time(3)", "time with time zone", "time(3) with time zone"):
            yield t, [None]
        yield "date", [None, "'2024-02-29'"]
        for t in ("interval", "uuid", "bytea", "json", "jsonb", "inet"):
            yield t, [None]
        for t in ("smallint", "integer", "bigint", "real", "double precision", "boolean", "text", "varchar(10)", "numeric(10,2)", "timestamp",
                  "timestamp(3)", "timestamp with time zone", "date", "time", "uuid", "bytea", "jsonb", "interval"):
            yield f"{t} ARRAY", [None]
    elif dialect == "mysql":
        for t in ("tinyint", "smallint", "int", "bigint"):
            yield t, NUMERIC
        for t in ("float", "double"):
            yield t, [None, "1.5", "-2.5"]
        for t in ("decimal(10,2)", "decimal(5,0)", "decimal(38,10)"):
            yield t, [None, "1.5" if "," in t and ",0" not in t else "2", "-3"]
        for t in ("varchar(1)", "varchar(10)", "varchar(255)", "char(1)", "char(3)"):
            yield t, STRING if t in ("varchar(10)", "varchar(255)") else [None]
        for t in ("tinytext", "text", "mediumtext", "longtext", "tinyblob", "blob", "mediumblob", "longblob", "json"):
            yield t, [None]
        for t in ("binary(16)", "binary(3)", "varbinary(1)", "varbinary(20)"):
            yield t, [None]
        for t in ("datetime", "datetime(3)", "datetime(6)"):
            yield t, [None, "'2024-02-29 12:30:00'"] + (["CURRENT_TIMESTAMP"] if t == "datetime" else [])
        for t in ("time", "time(3)", "time(6)"):
            yield t, [None]
        yield "date", [None, "'2024-02-29'"]
        yield "ENUM('a', 'b')", [None, "'a'", "'b'"]
        yield "ENUM('it''s', 'a,b', 'c d', '(x)')", [None, "'it''s'", "'a,b'"]
        yield "ENUM('x'',''y', 'z')", [None, "'z'"]
        yield "ENUM('a\\\\b', 'n\\nl', 'q\\'s', '\\\\\\\\n')", [None]
        yield "ENUM('\"q\"', 'Ünï')", [None]
    elif dialect == "mssql":
        yield "bit", [None, "1", "0"]
        for t in ("tinyint", "smallint", "int", "bigint"):
            yield t, [None, "5", "0"] if t == "tinyint" else NUMERIC
        for t in ("real", "float", "float(24)", "float(53)"):
            yield t, [None, "1.5", "-2.5"]
        for t in ("decimal(10,2)", "decimal(5,0)", "decimal(38,10)"):
            yield t, [None, "2", "-3"]
        for t in ("varchar(1)", "varchar(10)", "varchar(8000)", "varchar(max)", "char(1)", "char(3)"):
            yield t, STRING if t in ("varchar(10)", "varchar(max)") else [None]
        for t in ("binary(16)", "binary(3)", "varbinary(1)", "varbinary(20)", "varbinary(max)"):
            yield t, [None]
        for t in ("datetime2", "datetime2(0)", "datetime2(3)", "datetime2(6)"):
            yield t, [None, "getdate()"]
        for t in ("time", "time(0)", "time(3)"):
            yield t, [None]
        yield "date", [None, "'2024-02-29'"]
        yield "uniqueidentifier", [None]
    else:
        for t in ("number", "number(3)", "number(5)", "number(10)", "number(19)", "number(38)", "number(10,2)", "number(38,10)"):
            yield t, [None, "5", "-6"] if t != "number(10,2)" else [None, "1.5"]
        for t in ("float", "real", "double precision"):
            yield t, [None, "1.5", "-2.5"]
        for t in ("binary_float", "binary_double"):
            yield t, [None]
        yield "boolean", [None, "TRUE", "FALSE"]
        for t in ("varchar2(1)", "varchar2(10)", "varchar2(4000)", "char(1)", "char(3)"):
            yield t, [s for s in STRING if s != "''"] if t in ("varchar2(10)", "varchar2(4000)") else [None]
        for t in ("clob", "blob", "raw(1)", "raw(16)", "raw(2000)", "json"):
            yield t, [None]
        for t in ("timestamp", "timestamp(0)", "timestamp(3)", "timestamp(6)", "timestamp with time zone", "timestamp(3) with time zone"):
            yield t, [None, "CURRENT_TIMESTAMP"]
        yield "date", [None]
        yield "interval day to second", [None]


COMMENTS = [None, "Text.", "It's \"so\".", "a\nb", "50% \\ ; -- x"]


def comment_stmts(dialect: str, table: str, column: Optional[str], comment: Optional[str]) -> list[str]:
    if comment is None or dialect not in ("postgresql", "oracle"):
        return []
    on = f"COLUMN {table}.{q(dialect, column)}" if column is not None else f"TABLE {table}"
    return [f"COMMENT ON {on} IS {text(comment)}"]


def types(b: Bench, ns: Optional[str]) -> None:
    "One column of each type, with each default, nullability and comment, in a table with other columns."

    d = b.dialect
    for typ, defaults in column_types(d):
        for n, default in enumerate(defaults):
            for null in (False, True):
                b.clear()
                if ns is not None and d not in FLAT:
                    b.execute(f"CREATE SCHEMA {q(d, ns)}")
                comment = COMMENTS[(n + null) % len(COMMENTS)]
                inline = f" COMMENT {text(comment, d)}" if d == "mysql" and comment is not None else ""
                parts = [q(d, "c"), typ]
                if default is not None:
                    parts.append(f"DEFAULT {default}")
                if not null:
                    parts.append("NOT NULL")
                t = full(d, ns, "T")
                col = " ".join(parts) + inline
                ident = {"postgresql": "GENERATED BY DEFAULT AS IDENTITY", "mysql": "AUTO_INCREMENT", "mssql": "IDENTITY",
                         "oracle": "GENERATED BY DEFAULT AS IDENTITY"}[d]
                stmts = [
                    f"CREATE TABLE {t} ({q(d, 'id')} {big(d)} {'NOT NULL ' if d in ('mysql', 'mssql') else ''}{ident}, {col}, {q(d, 'z')} {big(d)}, "
                    f"CONSTRAINT {q(d, 'pk_T')} PRIMARY KEY ({q(d, 'id')}))" + (f" COMMENT = {text(comment, d)}" if d == "mysql" and comment else ""),
                    *comment_stmts(d, t, "c", comment), *comment_stmts(d, t, None, comment),
                ]
                if not b.execute(*stmts):
                    raise HarnessError(f"{d}: {stmts}")
                b.check(ns, f"{d}/types/{typ}", stmts)


def ordered_subsets(items: tuple, sizes: tuple[int, ...]) -> list[tuple]:
    return [p for n in sizes for p in itertools.permutations(items, n)]


def table_stmt(d: str, t: str, cols: tuple[str, ...], primary: tuple[str, ...], more: tuple[str, ...] = (), name: str = "pk") -> str:
    parts = [f"{q(d, c)} {big(d)} NOT NULL" for c in cols]
    if primary:
        parts.append(f"CONSTRAINT {q(d, name)} PRIMARY KEY ({', '.join(q(d, c) for c in primary)})")
    parts.extend(more)
    return f"CREATE TABLE {t} ({', '.join(parts)})"


def unique_clause(d: str, name: str, cols: tuple) -> str:
    return f"CONSTRAINT {q(d, name)} UNIQUE ({', '.join(q(d, c) for c in cols)})"


def foreign_clause(d: str, name: str, cols: tuple, t: str, target: tuple) -> str:
    return f"CONSTRAINT {q(d, name)} FOREIGN KEY ({', '.join(q(d, c) for c in cols)}) REFERENCES {t} ({', '.join(q(d, c) for c in target)})"


def start(b: Bench, *schemas: Optional[str]) -> None:
    b.clear()
    if b.dialect not in FLAT:
        for s in schemas:
            if s is not None and not b.execute(f"CREATE SCHEMA {q(b.dialect, s)}"):
                raise HarnessError(f"schema {s}")


def keys(b: Bench, ns: Optional[str], index: int, of: int) -> None:
    "Primary keys and unique constraints over ordered subsets of three columns."

    d = b.dialect
    cols = ("b", "a", "c")
    subsets = ordered_subsets(cols, (1, 2, 3))
    cases = [(p, u) for p in [()] + subsets for u in [()] + subsets if p or u]
    for p, u in cases[index::of]:
        start(b, ns)
        stmts = [table_stmt(d, full(d, ns, "T"), cols, p, (unique_clause(d, "uq", u),) if u else ())]
        # a table with other keys over equal names
        stmts.append(table_stmt(d, full(d, ns, "U"), cols, ("a",), (unique_clause(d, "uq" if d == "mysql" else "uq2", ("c", "b")),), "pk2"))
        if b.execute(*stmts):
            b.check(ns, f"{d}/keys/{len(p)}+{len(u)}", stmts)


def references(b: Bench, ns: Optional[str], other: Optional[str], thorough: bool, index: int, of: int) -> None:
    "References between ordered subsets of columns, to a primary key or unique constraint, in the same or another namespace."

    d = b.dialect
    cols = ("x", "y", "z")
    cases = []
    for n in (1, 2, 3):
        for key in ordered_subsets(("a", "b", "c"), (n,)) if n < 3 or thorough else [("a", "b", "c"), ("c", "a", "b")]:
            for target in itertools.permutations(key):
                for source in ordered_subsets(cols, (n,)):
                    for kind in ("p", "u"):
                        cases.append((key, target, source, kind))
    parent, child = full(d, other, "P"), full(d, ns, "Q")
    for key, target, source, kind in cases[index::of]:
        if d == "oracle" and target != key:
            continue  # not known how the catalog of the server describes these
        start(b, *{ns, other})
        rest = tuple(c for c in ("a", "b", "c") if c not in key)[:1] or ("a",)
        primary, uniq = (key, rest) if kind == "p" else (rest, key)
        clauses = (unique_clause(d, "uq_P", uniq),) if uniq != primary else ()
        stmts = [table_stmt(d, parent, ("a", "b", "c"), primary, clauses),
                 table_stmt(d, child, cols, ("x",), (foreign_clause(d, "fk_Q", source, parent, target),), "pk_Q")]
        if b.execute(*stmts):
            if b.check(ns, f"{d}/references/{kind}{len(key)}", stmts) and other != ns:
                b.check(other, f"{d}/references/{kind}{len(key)}", stmts)


def several(b: Bench, ns: Optional[str], other: Optional[str], index: int, of: int) -> None:
    "Two references, to the same or different tables, which have equal names in two namespaces, and references to itself."

    d = b.dialect
    targets = [(ns, "P"), (other, "P"), (ns, "Q"), (ns, "P2")]
    choices = [(t, s) for t in targets for s in (("x",), ("y",), ("x", "y"), ("y", "x"))]
    for n, (one, two) in enumerate(itertools.product(choices, repeat=2)):
        if n % of != index:
            continue
        for names in (("fk_1", "fk_2"), ("fk_2", "fk_1")):
            start(b, *{ns, other})
            stmts = []
            uq = 0
            for s in dict.fromkeys((ns, other)):
                for t in ("P", "P2"):
                    uq += 1
                    stmts.append(table_stmt(d, full(d, s, t), ("a", "b"), ("a",), (unique_clause(d, f"uq_{uq}", ("b", "a")),), f"pk_{uq}"))
            clauses = []
            for name, ((s, t), source) in zip(names, (one, two)):
                key = (("x",) if len(source) == 1 else ("x", "y")) if t == "Q" else ("a",) if len(source) == 1 else ("b", "a")
                clauses.append(foreign_clause(d, name, source, full(d, s, t), key))
            stmts.append(table_stmt(d, full(d, ns, "Q"), ("x", "y"), ("x",), (unique_clause(d, "uq_Q", ("x", "y")), *clauses), "pk_Q"))
            if b.execute(*stmts):
                b.check(ns, f"{d}/several", stmts)


NAMESPACES = ["a", "a_b", "aXb", "ab", "a%b", "a'b", 'a"b', "a\\b", "a b", "A", "a.b", "a]b", "a`b"]
TABLES = ["T", "t", "T_1", "TX1", "T'x", 'T"x', "T%", "T.x", "T\\", "Tx]", "T`x"]


def admissible(dialect: str, name: str) -> bool:
    if dialect == "oracle":
        return '"' not in name
    if dialect == "mssql":
        return name not in ("A", "t")  # names differ in more than case
    return True


def names(b: Bench, first: int) -> None:
    "Tables of each of several names in similarly named namespaces."

    d = b.dialect
    spaces = [s for s in NAMESPACES if admissible(d, s)]
    tables = [t for t in TABLES if admissible(d, t)]
    spaces_all: list[Optional[str]] = [None, *spaces]
    ns = spaces_all[first % len(spaces_all)]
    chosen: dict[Optional[str], list[str]] = {}
    start(b, *spaces)
    stmts = []
    for i, s in enumerate(spaces_all):
        # each namespace has the tables but one, and each of the tables lacks a column that others have
        chosen[s] = [t for k, t in enumerate(tables) if (k + i) % len(tables) != first % len(tables)]
        for k, t in enumerate(chosen[s]):
            pk, uq = f"pk_{i}_{k}", f"uq_{i}_{k}"
            cols = ("id", "c'", "C") if (k + i) % 2 and d != "mssql" and d != "mysql" else ("id", "c_1", "cX1")
            stmts.append(table_stmt(d, full(d, s, t), cols, ("id",), (unique_clause(d, uq, cols[1:2]),), pk))
    if not b.execute(*stmts):
        for s in stmts:
            b.execute(s) or (_ for _ in ()).throw(HarnessError(s))
    for s in spaces_all:
        b.check(s, f"{d}/names/{s}", (first, s))

    async def existence(explorer: Any) -> Any:
        out = {}
        for t in tables + ["", "%", "_", "T_"]:
            id = identify(d, ns, t)
            try:
                out[t] = (await explorer.has_table(id), {})
            except Exception as e:
                return f"has_table({id}): {W.cause(e)!r:.200}"
            for c in ("id", "c_1", "cX1", "c'", "C", "c", "%", "cY1", "i_"):
                try:
                    out[t][1][c] = await explorer.has_column(id, LocalId(c))
                except Exception as e:
                    return f"has_column({id}, {c}): {W.cause(e)!r:.200}"
        try:
            listed = await explorer.get_table_names()
        except Exception as e:
            return f"get_table_names(): {W.cause(e)!r:.200}"
        return out, listed

    sig = f"{d}/existence/{ns}"
    b.run.transition()
    result = b.call(existence)
    b.run.trace()
    b.run.case((d, b.reverse, "existence", first))
    if isinstance(result, str):
        b.run.violation(f"{sig}/error", f"{d}: {result}", {"dialect": d, "namespace": ns, "tables": chosen[ns]})
        return
    out, listed = result
    db_tables = {(t.schema, t.name): t for t in b.db.tables()}
    for t, (has, cols) in out.items():
        tab = db_tables.get(place(d, ns, t))
        if has is not (tab is not None):
            b.run.violation(f"{sig}/table", f"{d}: has_table({identify(d, ns, t)}) is {has}", {"dialect": d, "namespace": ns, "table": t})
        for c, h in cols.items():
            if h is not (tab is not None and tab.has(c)):
                b.run.violation(f"{sig}/column", f"{d}: has_column({identify(d, ns, t)}, {c}) is {h}", {"dialect": d, "namespace": ns, "table": t})
    found = sorted(x for x in (where(d, i, b.db.current) for i in listed) if x[0] in b.db.schemas)
    if found != sorted(db_tables):
        extra = [x for x in found if x not in db_tables]
        b.run.violation(f"{sig}/list", f"{d}: get_table_names has {len(found)} tables of {len(db_tables)}, such as {extra[:3]}, "
                        f"lacks {[x for x in db_tables if x not in found][:3]}", {"dialect": d})


def user_types(b: Bench, index: int, of: int) -> None:
    "Enumerations and composite types of PostgreSQL, and columns and arrays of them, with names like those of other types."

    d = b.dialect
    labels = [("a",), ("b", "a"), ("z", "y", "x"), ("it's", 'a"b', "c\\d", "a,b", "A", "a")]
    type_names = ["E", "date", "json", "int4", "Text", "uuid", "jsonb", "inet", "boolean", "Money x", "varchar", "time", "float8", "bytea"]
    member_types = ["bigint", "text", "varchar(10)", "numeric(10,2)", "timestamp(3)", "boolean", "bigint ARRAY", "varchar(10) ARRAY", "date", "jsonb"]
    cases = []
    for ns, other in ((None, "app"), ("app", None), ("app", "public2"), ("app", "app_"), (None, None), ("app", "app")):
        for name in type_names:
            for i, values in enumerate(labels):
                cases.append((ns, other, name, values, member_types[(i + len(name)) % len(member_types)]))
        for m in member_types:
            cases.append((ns, other, "S", labels[1], m))
    for ns, other, name, values, member in cases[index::of]:
        start(b, *{ns, other})
        e, s, n = full(d, other, name), full(d, other, name + "_s"), full(d, ns, "N")
        stmts = [
            f"CREATE TYPE {e} AS ENUM ({', '.join(text(v) for v in values)})",
            f"CREATE TYPE {s} AS (\"b\" {member}, \"a\" {e}, \"l\" {e} ARRAY)",
            f"COMMENT ON TYPE {s} IS 'Struct''s.'",
            f"COMMENT ON COLUMN {s}.\"a\" IS 'Member.'",
            f"CREATE TYPE {n} AS (\"s\" {s}, \"m\" {s} ARRAY)",
            f"CREATE TABLE {full(d, ns, 'T')} (\"id\" bigint NOT NULL, \"e\" {e} NOT NULL, \"es\" {e} ARRAY, \"s\" {s}, \"ss\" {s} ARRAY NOT NULL, "
            f"\"n\" {n}, CONSTRAINT \"pk\" PRIMARY KEY (\"id\"))",
        ]
        if not b.execute(*stmts):
            raise HarnessError(f"{stmts}")
        sig = f"{d}/user-types/{name}"
        b.check(ns, sig, stmts)
        if other != ns:
            b.check(other, sig, stmts)
        more = [f"ALTER TYPE {e} ADD VALUE 'new' BEFORE {text(values[0])}", f"ALTER TYPE {e} ADD VALUE 'last'"]
        if b.execute(*more):
            b.check(other, sig + "-extended", stmts + more)


def alterations(b: Bench, ns: Optional[str], index: int, of: int) -> None:
    "Columns dropped and added in a table with keys and references, so that positions differ from numbers."

    d = b.dialect
    cols = ("a", "b", "c", "d", "e")
    column = "" if d in ("mssql", "oracle") else "COLUMN "
    cases = [(drop, p, u, f) for drop in ordered_subsets(("a", "c", "d"), (1, 2)) for p in (("b",), ("e", "b"), ("b", "e"))
             for u in (("e", "b"), ("b",), ("e",)) for f in (("b", "e"), ("e", "b"))]
    for drop, p, u, f in cases[index::of]:
        start(b, ns)
        t, r = full(d, ns, "T"), full(d, ns, "R")
        drops = [f"ALTER TABLE {t} DROP COLUMN {q(d, c)}" if d != "oracle" else f"ALTER TABLE {t} DROP COLUMN {q(d, c)}" for c in drop]
        adds = [f"ALTER TABLE {t} ADD {column}{q(d, c)} {big(d)}" if d != "oracle" else f"ALTER TABLE {t} ADD ({q(d, c)} {big(d)})" for c in ("f", "a")]
        stmts = [table_stmt(d, r, ("y", "x"), ("x", "y"), (), "pk_R"),
                 table_stmt(d, t, cols, p, (unique_clause(d, "uq", u), foreign_clause(d, "fk", f, r, ("x", "y"))), "pk_T")]
        if not b.execute(*stmts):
            continue
        for s in drops + adds:
            if b.execute(s):
                stmts.append(s)
                b.check(ns, f"{d}/alterations", stmts)


def histories(run: Run, dialect: str, n: int, reverse: bool, first: int, depth: int) -> None:
    "Databases that the library itself has made."

    theme = W.structure_themes(dialect, run.thorough)[n]

    def visit(h: X.History, session: W.Session, j: int, sig: str, history: list, ddl: list[str]) -> None:
        b = Bench(run, dialect, reverse)
        b.session, b.db = session, session.server.db
        for m in theme.versions[j]:
            b.check(m.ns, f"{sig}/{m.ns}", history)

    X.History(run, dialect, theme, reverse, depth, visit, lambda h, e, sig, history: None).start(first)


def work(run: Run, item: tuple) -> None:
    kind, dialect, reverse, *rest = item
    if kind == "histories":
        histories(run, dialect, rest[0], reverse, rest[1], rest[2])
        return
    b = Bench(run, dialect, reverse)
    {"types": types, "keys": keys, "references": references, "several": several, "names": names, "user_types": user_types,
     "alterations": alterations}[kind](b, *rest)


def explore(run: Run) -> None:
    D.install()
    items: list[tuple] = []
    of = 8 if run.thorough else 2
    for d in D.DIALECTS:
        both = (False, True)
        for reverse in both:
            for ns in (None, "app"):
                if not reverse or run.thorough:
                    items.append(("types", d, reverse, ns))
                items.extend(("keys", d, reverse, ns, i, of) for i in range(of))
                items.extend(("alterations", d, reverse, ns, i, of) for i in range(of))
            pairs = ((None, None), ("app", "app"), ("app", None), ("app", "appX"), (None, "app"))
            for ns, other in pairs if run.thorough else pairs[2:] if reverse else pairs[:4]:
                items.extend(("references", d, reverse, ns, other, run.thorough, i, of) for i in range(of))
                items.extend(("several", d, reverse, ns, other, i, of) for i in range(of))
            items.extend(("names", d, reverse, i) for i in range(len(NAMESPACES) + 1))
        if d == "postgresql":
            items.extend(("user_types", d, reverse, i, 4) for reverse in both for i in range(4))
    depth = 2 if run.thorough else 1
    items.extend(("histories", d, reverse, n, i, depth) for d, n, reverse, i in X.tasks(run.thorough))
    run.bounds = {"types": {d: len(list(column_types(d))) for d in D.DIALECTS}, "columns of keys": 3, "namespaces": len(NAMESPACES) + 1,
                  "tables": len(TABLES), "depth of histories": depth}
    parallel(run, work, items)
