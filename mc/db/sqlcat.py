"""
Serves catalog queries: renders the state of a model database into the system tables of its dialect (held in an in-memory
SQLite database) and executes the query there, with the dialect's lexical rules applied by our own lexer.

Rows that the query does not order explicitly may come in any order; `reverse` picks the opposite of creation order.
"""

import decimal
import sqlite3
from typing import Any, Optional

from . import sqltypes as T
from .lexer import SqlError, Tok, tokenize
from .model import Db

sqlite3.register_converter("pgchar", lambda b: b)

ATTACHED = {"postgresql": ["pg_catalog", "information_schema"], "mysql": ["information_schema"],
            "mssql": ["information_schema", "sys"], "oracle": []}

TABLES: dict[str, dict[str, str]] = {
    "postgresql": {
        "pg_catalog.pg_namespace": "oid int, nspname text",
        "pg_catalog.pg_class": "oid int, relname text, relnamespace int, relkind pgchar, relpersistence pgchar",
        "pg_catalog.pg_type": "oid int, typname text, typnamespace int, typelem int, typtype pgchar, typrelid int",
        "pg_catalog.pg_attribute": "attrelid int, attname text, atttypid int, atttypmod int, attnum int, attnotnull int, "
        "attndims int, attidentity pgchar, attisdropped int, atthasdef int",
        "pg_catalog.pg_attrdef": "oid int, adrelid int, adnum int, adbin text",
        "pg_catalog.pg_description": "objoid int, classoid int, objsubid int, description text",
        "pg_catalog.pg_enum": "oid int, enumtypid int, enumsortorder real, enumlabel text",
        "pg_catalog.pg_constraint": "oid int, conname text, connamespace int, contype pgchar, conrelid int, confrelid int, "
        "conkey text, confkey text, conbin text",
        "pg_catalog.__unnest": "k text, v1 int, v2 int, ord int",
        "information_schema.tables": "table_catalog text, table_schema text, table_name text, table_type text",
    },
    "mysql": {
        "information_schema.schemata": "CATALOG_NAME text, SCHEMA_NAME text",
        "information_schema.tables": "TABLE_CATALOG text, TABLE_SCHEMA text, TABLE_NAME text, TABLE_TYPE text, TABLE_COMMENT text",
        "information_schema.columns": "TABLE_CATALOG text, TABLE_SCHEMA text, TABLE_NAME text, COLUMN_NAME text, ORDINAL_POSITION int, "
        "COLUMN_DEFAULT text, IS_NULLABLE text, DATA_TYPE text, CHARACTER_MAXIMUM_LENGTH int, NUMERIC_PRECISION int, "
        "NUMERIC_SCALE int, DATETIME_PRECISION int, COLUMN_TYPE text, COLUMN_KEY text, EXTRA text, COLUMN_COMMENT text",
        "information_schema.table_constraints": "CONSTRAINT_CATALOG text, CONSTRAINT_SCHEMA text, CONSTRAINT_NAME text, "
        "TABLE_SCHEMA text, TABLE_NAME text, CONSTRAINT_TYPE text",
        "information_schema.key_column_usage": "CONSTRAINT_CATALOG text, CONSTRAINT_SCHEMA text, CONSTRAINT_NAME text, "
        "TABLE_CATALOG text, TABLE_SCHEMA text, TABLE_NAME text, COLUMN_NAME text, ORDINAL_POSITION int, "
        "POSITION_IN_UNIQUE_CONSTRAINT int, REFERENCED_TABLE_SCHEMA text, REFERENCED_TABLE_NAME text, REFERENCED_COLUMN_NAME text",
        "information_schema.referential_constraints": "CONSTRAINT_CATALOG text, CONSTRAINT_SCHEMA text, CONSTRAINT_NAME text, "
        "UNIQUE_CONSTRAINT_CATALOG text, UNIQUE_CONSTRAINT_SCHEMA text, UNIQUE_CONSTRAINT_NAME text, TABLE_NAME text, REFERENCED_TABLE_NAME text",
        "information_schema.check_constraints": "CONSTRAINT_CATALOG text, CONSTRAINT_SCHEMA text, CONSTRAINT_NAME text, CHECK_CLAUSE text",
    },
    "mssql": {
        "information_schema.tables": "TABLE_CATALOG text, TABLE_SCHEMA text, TABLE_NAME text, TABLE_TYPE text",
        "information_schema.columns": "TABLE_CATALOG text, TABLE_SCHEMA text, TABLE_NAME text, COLUMN_NAME text, ORDINAL_POSITION int, "
        "COLUMN_DEFAULT text, IS_NULLABLE text, DATA_TYPE text, CHARACTER_MAXIMUM_LENGTH int, NUMERIC_PRECISION int, "
        "NUMERIC_SCALE int, DATETIME_PRECISION int",
        "information_schema.table_constraints": "CONSTRAINT_CATALOG text, CONSTRAINT_SCHEMA text, CONSTRAINT_NAME text, "
        "TABLE_CATALOG text, TABLE_SCHEMA text, TABLE_NAME text, CONSTRAINT_TYPE text",
        "information_schema.key_column_usage": "CONSTRAINT_CATALOG text, CONSTRAINT_SCHEMA text, CONSTRAINT_NAME text, "
        "TABLE_CATALOG text, TABLE_SCHEMA text, TABLE_NAME text, COLUMN_NAME text, ORDINAL_POSITION int",
        "information_schema.referential_constraints": "CONSTRAINT_CATALOG text, CONSTRAINT_SCHEMA text, CONSTRAINT_NAME text, "
        "UNIQUE_CONSTRAINT_CATALOG text, UNIQUE_CONSTRAINT_SCHEMA text, UNIQUE_CONSTRAINT_NAME text",
        "information_schema.check_constraints": "CONSTRAINT_CATALOG text, CONSTRAINT_SCHEMA text, CONSTRAINT_NAME text, CHECK_CLAUSE text",
        "sys.schemas": "name text, schema_id int",
        "sys.tables": "name text, object_id int, schema_id int, is_ms_shipped int",
        "sys.columns": "object_id int, name text, column_id int, is_identity int, is_nullable int, default_object_id int",
        "sys.default_constraints": "name text, object_id int, parent_object_id int, parent_column_id int, definition text",
        "sys.foreign_keys": "name text, object_id int, schema_id int, parent_object_id int, referenced_object_id int",
        "sys.foreign_key_columns": "constraint_object_id int, constraint_column_id int, parent_object_id int, parent_column_id int, "
        "referenced_object_id int, referenced_column_id int",
        "sys.check_constraints": "name text, object_id int, parent_object_id int, schema_id int, definition text",
    },
    "oracle": {
        "dba_tables": "OWNER text, TABLE_NAME text, TABLESPACE_NAME text, STATUS text, \"TEMPORARY\" text, SECONDARY text, DROPPED text, READ_ONLY text",
        "dba_tab_comments": "OWNER text, TABLE_NAME text, TABLE_TYPE text, COMMENTS text",
        "dba_tab_columns": "OWNER text, TABLE_NAME text, COLUMN_NAME text, DATA_TYPE text, DATA_TYPE_OWNER text, DATA_LENGTH int, "
        "DATA_PRECISION int, DATA_SCALE int, NULLABLE text, COLUMN_ID int, DATA_DEFAULT text, CHAR_LENGTH int, IDENTITY_COLUMN text",
        "dba_col_comments": "OWNER text, TABLE_NAME text, COLUMN_NAME text, COMMENTS text",
        "dba_constraints": "OWNER text, CONSTRAINT_NAME text, CONSTRAINT_TYPE text, TABLE_NAME text, R_OWNER text, R_CONSTRAINT_NAME text, "
        "SEARCH_CONDITION text",
        "dba_cons_columns": "OWNER text, CONSTRAINT_NAME text, TABLE_NAME text, COLUMN_NAME text, POSITION int",
    },
}


def pg_default(typ: tuple, e: Any, db: Db) -> str:
    "How PostgreSQL prints a default expression (pg_get_expr)."

    if e[0] == "cast":
        e = e[1]
    v = e[1] if e[0] == "lit" else None
    if e[0] == "neg" and e[1][0] == "lit":
        v = -e[1][1]
    if e[0] == "call":
        return "now()" if e[1] == "now" else e[1].upper()
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, decimal.Decimal)):
        if v >= 0:
            # no exponent in a value of type `numeric`
            return f"{v:f}" if isinstance(v, decimal.Decimal) else str(v) if v < 2**31 else f"'{v}'::bigint"
        if isinstance(v, decimal.Decimal):
            return f"'{v:f}'::numeric"
        return f"'{v}'::{'integer' if v >= -(2**31) else 'bigint'}"
    if isinstance(v, str):
        lit = "'" + v.replace("'", "''") + "'"
        base = typ
        if typ[0] == "varchar":
            base = ("varchar", None)
        elif typ[0] == "char":
            return f"{lit}::bpchar"
        elif typ[0] in ("ts", "time"):
            # a value of the column's type
            value = T.assign(typ, v, db, "literal")
            text = str(value) if typ[0] == "time" else value.replace(tzinfo=None).isoformat(sep=" ")
            if typ[2]:
                text += "+00"
            return f"'{text}'::{T.pg_format_type((typ[0], None, typ[2]))}"
        return f"{lit}::{T.pg_format_type(base)}"
    raise SqlError(f"default not modelled: {e!r}")


def my_default(typ: tuple, e: Any, db: Db) -> str:
    "COLUMN_DEFAULT of MySQL: the value converted to the type of the column, without quotes."

    if e[0] == "call":
        return "CURRENT_TIMESTAMP" if e[1] in ("now", "current_timestamp") else e[1]
    v = -e[1][1] if e[0] == "neg" else e[1]
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, str) and typ[0] == "datetime":
        value = T.assign(typ, v, db, "literal")
        return value.strftime("%Y-%m-%d %H:%M:%S") + (f".{value.microsecond:06d}"[: typ[1] + 1] if typ[1] else "")
    if typ[0] == "float":
        return f"{float(v):.17g}" if float(f"{float(v):.15g}") != float(v) else f"{float(v):.15g}"
    if typ[0] == "dec":
        return str(decimal.Decimal(v).quantize(decimal.Decimal(1).scaleb(-typ[2])))
    return str(v)


def ms_default(e: Any, text: str) -> str:
    "Definition of a default constraint in SQL Server: numbers in two pairs of parentheses, others in one."

    if e[0] == "lit" and isinstance(e[1], str):
        return "('" + e[1].replace("'", "''") + "')"
    if e[0] == "lit" and e[1] is None:
        return "(NULL)"
    v = -e[1][1] if e[0] == "neg" else e[1] if e[0] == "lit" else None
    if e[0] == "call":
        return f"({e[1]}())"
    if e[0] == "cast":
        return f"({text})"
    if isinstance(v, decimal.Decimal) and "e" in text.lower():
        # a floating-point literal
        mantissa, _, exponent = f"{float(v):.16e}".partition("e")
        return f"(({mantissa}e{exponent[0]}{int(exponent[1:]):03d}))"
    return f"(({f'{v:f}' if isinstance(v, decimal.Decimal) else v}))"


class Catalog:
    def __init__(self, db: Db, others: Optional[list[Db]] = None, reverse: bool = False) -> None:
        self.db = db
        self.dialect = db.dialect
        self.reverse = reverse
        self.types: list[tuple] = []
        con = sqlite3.connect(":memory:", detect_types=sqlite3.PARSE_DECLTYPES, isolation_level=None, check_same_thread=False)
        self.con = con
        con.setconfig(sqlite3.SQLITE_DBCONFIG_DQS_DML, False)
        con.execute("PRAGMA case_sensitive_like = ON")
        for name in ATTACHED[self.dialect]:
            con.execute(f"ATTACH ':memory:' AS {name}")
        for name, cols in TABLES[self.dialect].items():
            con.execute(f"CREATE TABLE {name} ({cols})")
        self.data: dict[str, list[tuple]] = {name: [] for name in TABLES[self.dialect]}
        getattr(self, "fill_" + self.dialect)([db] + (others or []))
        for name, rows in self.data.items():
            if rows:
                rows = [tuple(v.decode() if isinstance(v, bytes) else v for v in row) for row in rows]
                if reverse:
                    rows = rows[::-1]
                con.executemany(f"INSERT INTO {name} VALUES ({','.join('?' * len(rows[0]))})", rows)
        fn = con.create_function
        if self.dialect == "postgresql":
            fn("format_type", 2, self.format_type)
            fn("pg_get_expr", 2, lambda text, oid: text)
            fn("pg_get_constraintdef", 1, lambda oid: None)
            fn("current_schema", 0, lambda: db.current)
        elif self.dialect == "mysql":
            fn("database", 0, lambda: db.current)
            fn("schema", 0, lambda: db.current)
        elif self.dialect == "mssql":
            fn("schema_name", 0, lambda: db.current)
            ids = {s.name: s.oid for s in db.schemas.values()}
            fn("schema_id", 0, lambda: ids[db.current])
            fn("schema_id", 1, lambda n: ids.get(n))
            fn("object_id", 1, lambda n: None)
        else:
            fn("sys_context", 2, lambda ns, p: db.current if ns.upper() == "USERENV" and p.upper() in ("CURRENT_SCHEMA", "CURRENT_USER") else None)

    def close(self) -> None:
        self.con.close()

    def format_type(self, oid: int, mod: int) -> Optional[str]:
        if oid == 0 or mod is None:
            return "-"
        return T.pg_format_type(self.types[mod], self.db.current)

    # rendering -----------------------------------------------------------------

    def fill_postgresql(self, dbs: list[Db]) -> None:
        db = dbs[0]
        d = {k.split(".")[1]: v for k, v in self.data.items() if k.startswith("pg_catalog.")}
        d["pg_namespace"] += [(11, "pg_catalog"), (99, "pg_toast"), (13000, "information_schema")]
        builtin: dict[str, int] = {}
        names = [n[0] for n in T.PG_NAMES.values()] + ["numeric", "varchar", "bpchar", "timestamp", "timestamptz", "time", "timetz", "name"]
        for i, name in enumerate(names):
            builtin[name] = 16 + i
            builtin["_" + name] = 1000 + i
            d["pg_type"].append((16 + i, name, 11, 0, b"b", 0))
            d["pg_type"].append((1000 + i, "_" + name, 11, 16 + i, b"b", 0))
        # some objects of the system
        d["pg_class"] += [(1259, "pg_class", 11, b"r", b"p"), (2662, "pg_class_oid_index", 11, b"i", b"p"),
                          (12001, "pg_tables", 11, b"v", b"p"), (12002, "columns", 13000, b"v", b"p")]
        user: dict[tuple[str, str], int] = {}
        for s in db.schemas.values():
            d["pg_namespace"].append((s.oid, s.name))
            for e in s.enums.values():
                user[s.name, e.name] = e.oid
                user[s.name, "_" + e.name] = e.oid + 100000
                d["pg_type"].append((e.oid, e.name, s.oid, 0, b"e", 0))
                d["pg_type"].append((e.oid + 100000, "_" + e.name, s.oid, e.oid, b"b", 0))
                for i, v in enumerate(e.values):
                    d["pg_enum"].append((e.oid + 200000 + i, e.oid, float(i + 1), v))
            for st in s.structs.values():
                user[s.name, st.name] = st.oid
                user[s.name, "_" + st.name] = st.oid + 100000
                rel = st.oid + 300000
                d["pg_type"].append((st.oid, st.name, s.oid, 0, b"c", rel))
                d["pg_type"].append((st.oid + 100000, "_" + st.name, s.oid, st.oid, b"b", 0))
                d["pg_class"].append((rel, st.name, s.oid, b"c", b"p"))
                if st.comment is not None:
                    d["pg_description"].append((st.oid, 1247, 0, st.comment))
            for t in s.tables.values():
                d["pg_class"].append((t.oid, t.name, s.oid, b"r", b"p"))
                d["pg_type"].append((t.oid + 400000, t.name, s.oid, 0, b"c", t.oid))
                d["pg_type"].append((t.oid + 500000, "_" + t.name, s.oid, t.oid + 400000, b"b", 0))
                if t.comment is not None:
                    d["pg_description"].append((t.oid, 1259, 0, t.comment))

        def attribute(rel: int, name: str, typ: tuple, num: int, not_null: bool, identity: bool, has_def: bool) -> None:
            schema, tname = T.pg_typname(typ)
            oid = builtin[tname] if schema is None else user[schema, tname]
            self.types.append(typ)
            d["pg_attribute"].append((rel, name, oid, len(self.types) - 1, num, int(not_null), int(typ[0] == "array"),
                                      b"d" if identity else b"", 0, int(has_def)))

        extra = 700000
        for s in db.schemas.values():
            for st in s.structs.values():
                rel = st.oid + 300000
                live = {m.num: m for m in st.members}
                for num in range(1, st.next_num):
                    m = live.get(num)
                    if m is None:
                        d["pg_attribute"].append((rel, f"........pg.dropped.{num}........", 0, None, num, 0, 0, b"", 1, 0))
                        continue
                    attribute(rel, m.name, m.typ, num, False, False, False)
                    if m.comment is not None:
                        d["pg_description"].append((rel, 1259, num, m.comment))
            for t in s.tables.values():
                for num, name in ((-1, "ctid"), (-3, "xmin"), (-6, "tableoid")):
                    d["pg_attribute"].append((t.oid, name, builtin["int4"], None, num, 1, 0, b"", 0, 0))
                nums: dict[str, int] = {c.name: c.num for c in t.cols}
                for num in t.dropped:
                    d["pg_attribute"].append((t.oid, f"........pg.dropped.{num}........", 0, None, num, 0, 0, b"", 1, 0))
                for c in t.cols:
                    attribute(t.oid, c.name, c.typ, c.num, c.not_null, c.identity, c.default is not None)
                    if c.default is not None:
                        extra += 1
                        d["pg_attrdef"].append((extra, t.oid, c.num, pg_default(c.typ, c.default[0], db)))
                    if c.comment is not None:
                        d["pg_description"].append((t.oid, 1259, c.num, c.comment))
                    if c.identity:
                        extra += 1
                        d["pg_class"].append((extra, f"{t.name}_{c.name}_seq", s.oid, b"S", b"p"))
                        self.types.append(("int", 8))
                        d["pg_attribute"].append((extra, "last_value", builtin["int8"], len(self.types) - 1, 1, 1, 0, b"", 0, 0))
                for con in t.cons.values():
                    key = "{" + ",".join(str(nums[x]) for x in con.cols) + "}"
                    fkey, frel = None, 0
                    if con.kind == "f":
                        target = db.schemas[con.ref[0]].tables[con.ref[1]]
                        fnums = {c.name: c.num for c in target.cols}
                        frel = target.oid
                        fkey = "{" + ",".join(str(fnums[x]) for x in con.ref[2]) + "}"
                    extra += 1
                    text = con.text if con.kind == "c" else None
                    d["pg_constraint"].append((extra, con.name, s.oid, con.kind.encode(), t.oid, frel, key, fkey, text))
                    if con.kind in "pu":
                        extra += 1
                        d["pg_class"].append((extra, con.name, s.oid, b"i", b"p"))
                        for i, name in enumerate(con.cols):
                            attribute(extra, name, t.col(name).typ, i + 1, False, False, False)
                self.data["information_schema.tables"].append(("db", s.name, t.name, "BASE TABLE"))
        unnest: dict[str, tuple] = {}
        for row in d["pg_constraint"]:
            a = [int(x) for x in row[6][1:-1].split(",") if x]
            b = [int(x) for x in row[7][1:-1].split(",") if x] if row[7] else []
            unnest[f"{row[6]}/{row[7] or ''}"] = (a, b)
            unnest[f"{row[6]}/"] = (a, [])
        for k, (a, b) in unnest.items():
            for i in range(max(len(a), len(b))):
                d["__unnest"].append((k, a[i] if i < len(a) else None, b[i] if i < len(b) else None, i + 1))

    def fill_mysql(self, dbs: list[Db]) -> None:
        d = {k.split(".")[1]: v for k, v in self.data.items()}
        d["tables"] += [("def", "mysql", "user", "BASE TABLE", ""), ("def", "information_schema", "TABLES", "SYSTEM VIEW", "")]
        for db in dbs:
            s = db.schemas[db.current]
            d["schemata"].append(("def", s.name))
            for t in s.tables.values():
                d["tables"].append(("def", s.name, t.name, "BASE TABLE", t.comment or ""))
                for i, c in enumerate(t.cols):
                    r = T.info_type(c.typ, "mysql")
                    key = ""
                    for con in t.cons.values():
                        if con.kind == "p" and c.name in con.cols:
                            key = "PRI"
                    d["columns"].append(("def", s.name, t.name, c.name, i + 1,
                                         my_default(c.typ, c.default[0], db) if c.default is not None else None,
                                         "NO" if c.not_null else "YES", r["data_type"], r["character_maximum_length"], r["numeric_precision"],
                                         r["numeric_scale"], r["datetime_precision"], r["column_type"], key,
                                         "auto_increment" if c.identity else "DEFAULT_GENERATED" if c.default is not None and c.default[0][0] == "call" else "",
                                         c.comment or ""))
                for con in t.cons.values():
                    kind = {"p": "PRIMARY KEY", "u": "UNIQUE", "f": "FOREIGN KEY", "c": "CHECK"}[con.kind]
                    d["table_constraints"].append(("def", s.name, con.name, s.name, t.name, kind))
                    if con.kind == "c":
                        d["check_constraints"].append(("def", s.name, con.name, con.text))
                        continue
                    for i, name in enumerate(con.cols):
                        ref = (s.name, con.ref[1], con.ref[2][i]) if con.kind == "f" else (None, None, None)
                        d["key_column_usage"].append(("def", s.name, con.name, "def", s.name, t.name, name, i + 1,
                                                      i + 1 if con.kind == "f" else None, *ref))
                    if con.kind == "f":
                        target = s.tables[con.ref[1]]
                        uq = [c.name for c in target.cons.values() if c.kind in "pu" and sorted(c.cols) == sorted(con.ref[2])]
                        d["referential_constraints"].append(("def", s.name, con.name, "def", s.name, uq[0] if uq else None, t.name, con.ref[1]))

    def fill_mssql(self, dbs: list[Db]) -> None:
        db = dbs[0]
        i = {k.split(".")[1]: v for k, v in self.data.items() if k.startswith("information_schema.")}
        y = {k.split(".")[1]: v for k, v in self.data.items() if k.startswith("sys.")}
        y["schemas"] += [("sys", 4), ("INFORMATION_SCHEMA", 3)]
        y["tables"].append(("spt_monitor", 77, 1, 1))
        extra = 800000
        for s in db.schemas.values():
            y["schemas"].append((s.name, s.oid))
            for t in s.tables.values():
                y["tables"].append((t.name, t.oid, s.oid, 0))
                i["tables"].append(("db", s.name, t.name, "BASE TABLE"))
                for k, c in enumerate(t.cols):
                    r = T.info_type(c.typ, "mssql")
                    default, did = None, 0
                    if c.default_name is not None:
                        extra += 1
                        did = extra
                        default = ms_default(*c.default) if c.default is not None else "(NULL)"
                        y["default_constraints"].append((c.default_name, did, t.oid, c.num, default))
                    i["columns"].append(("db", s.name, t.name, c.name, k + 1, default, "NO" if c.not_null else "YES", r["data_type"],
                                         r["character_maximum_length"], r["numeric_precision"], r["numeric_scale"], r["datetime_precision"]))
                    y["columns"].append((t.oid, c.name, c.num, int(c.identity), int(not c.not_null), did))
                for con in t.cons.values():
                    kind = {"p": "PRIMARY KEY", "u": "UNIQUE", "f": "FOREIGN KEY", "c": "CHECK"}[con.kind]
                    i["table_constraints"].append(("db", s.name, con.name, "db", s.name, t.name, kind))
                    if con.kind == "c":
                        i["check_constraints"].append(("db", s.name, con.name, con.text))
                        extra += 1
                        y["check_constraints"].append((con.name, extra, t.oid, s.oid, con.text))
                        continue
                    for k, name in enumerate(con.cols):
                        i["key_column_usage"].append(("db", s.name, con.name, "db", s.name, t.name, name, k + 1))
                    if con.kind == "f":
                        target = db.schemas[con.ref[0]].tables[con.ref[1]]
                        uq = [c.name for c in target.cons.values() if c.kind in "pu" and sorted(c.cols) == sorted(con.ref[2])]
                        i["referential_constraints"].append(("db", s.name, con.name, "db", con.ref[0], uq[0]))
                        extra += 1
                        y["foreign_keys"].append((con.name, extra, s.oid, t.oid, target.oid))
                        for k, (name, other) in enumerate(zip(con.cols, con.ref[2])):
                            y["foreign_key_columns"].append((extra, k + 1, t.oid, t.col(name).num, target.oid, target.col(other).num))

    def fill_oracle(self, dbs: list[Db]) -> None:
        d = self.data
        d["dba_tables"].append(("SYS", "OBJ$", "SYSTEM", "VALID", "N", "N", "NO", "NO"))
        d["dba_tables"].append(("SYSTEM", "REDO_DB", "SYSAUX", "VALID", "N", "N", "NO", "NO"))
        for db in dbs:
            s = db.schemas[db.current]
            n = 0
            for t in s.tables.values():
                d["dba_tables"].append((s.name, t.name, "USERS", "VALID", "N", "N", "NO", "NO"))
                d["dba_tab_comments"].append((s.name, t.name, "TABLE", t.comment))
                for i, c in enumerate(t.cols):
                    r = T.oracle_type(c.typ)
                    default = c.default[1] if c.default is not None else None
                    if c.identity:
                        n += 1
                        default = f'"{s.name}"."ISEQ$$_{7000 + n}".nextval'
                    d["dba_tab_columns"].append((s.name, t.name, c.name, r["data_type"], None, r["data_length"], r["data_precision"], r["data_scale"],
                                                 "N" if c.not_null else "Y", i + 1, default, r["char_length"], "YES" if c.identity else "NO"))
                    d["dba_col_comments"].append((s.name, t.name, c.name, c.comment))
                    if c.not_null and not (t.primary is not None and c.name in t.primary.cols):
                        n += 1
                        d["dba_constraints"].append((s.name, f"SYS_C00{8000 + n}", "C", t.name, None, None, f'"{c.name}" IS NOT NULL'))
                        d["dba_cons_columns"].append((s.name, f"SYS_C00{8000 + n}", t.name, c.name, None))
                for con in t.cons.values():
                    kind = {"p": "P", "u": "U", "f": "R", "c": "C"}[con.kind]
                    rname = None
                    if con.kind == "f":
                        target = s.tables[con.ref[1]]
                        rname = [c.name for c in target.cons.values() if c.kind in "pu" and sorted(c.cols) == sorted(con.ref[2])][0]
                    d["dba_constraints"].append((s.name, con.name, kind, t.name, s.name if rname else None, rname, con.text if kind == "C" else None))
                    for i, name in enumerate(con.cols):
                        d["dba_cons_columns"].append((s.name, con.name, t.name, name, None if kind == "C" else i + 1))

    # queries -------------------------------------------------------------------

    def translate(self, sql: str) -> tuple[str, bool]:
        toks = [t for t in tokenize(sql, self.dialect) if t.kind != "end"]
        while toks and toks[-1].kind == "op" and toks[-1].value == ";":
            toks.pop()
        out: list[str] = []
        i = 0
        depth = 0
        ordered = False

        def word(k: int, *values: str) -> bool:
            return k < len(toks) and toks[k].kind == "word" and toks[k].value.upper() in values

        def op(k: int, value: str) -> bool:
            return k < len(toks) and toks[k].kind == "op" and toks[k].value == value

        def group(k: int) -> tuple[list[list[Tok]], int]:
            "Comma-separated items in parentheses that start at position k."

            items: list[list[Tok]] = [[]]
            level = 0
            while True:
                t = toks[k]
                if op(k, "("):
                    level += 1
                    if level == 1:
                        k += 1
                        continue
                elif op(k, ")"):
                    level -= 1
                    if level == 0:
                        return items, k + 1
                elif op(k, ",") and level == 1:
                    items.append([])
                    k += 1
                    continue
                items[-1].append(t)
                k += 1

        def emit(t: Tok) -> str:
            if t.kind == "id":
                return '"' + str(t.value).replace('"', '""') + '"'
            if t.kind == "str":
                return "'" + str(t.value).replace("'", "''") + "'"
            return str(t.value)

        while i < len(toks):
            t = toks[i]
            if op(i, "("):
                depth += 1
            elif op(i, ")"):
                depth -= 1
            if depth == 0 and word(i, "ORDER") and word(i + 1, "BY"):
                ordered = True
            if self.dialect == "postgresql":
                if word(i, "PG_CATALOG") and op(i + 1, ".") and op(i + 3, "("):
                    i += 2
                    continue
                if word(i, "LATERAL"):
                    i += 1
                    continue
                if word(i, "UNNEST") and op(i + 1, "("):
                    args, k = group(i + 1)
                    ordinality = word(k, "WITH") and word(k + 1, "ORDINALITY")
                    if ordinality:
                        k += 2
                    if word(k, "AS"):
                        k += 1
                    alias = emit(toks[k])
                    names, k = group(k + 1)
                    cols = [" ".join(emit(x) for x in n) for n in names]
                    src = ["v1", "v2"][: len(args)] + (["ord"] if ordinality else [])
                    if len(cols) > len(src):
                        raise SqlError("table has fewer columns available than specified")
                    key = "".join(f"ifnull({' '.join(emit(x) for x in a)}, '')||'/'||" for a in args[:1])
                    second = "ifnull(" + " ".join(emit(x) for x in args[1]) + ", '')" if len(args) > 1 else "''"
                    select = ", ".join(f"{a} AS {b}" for a, b in zip(src, cols))
                    out.append(f"(SELECT k AS __k, {select} FROM pg_catalog.__unnest) AS {alias} ON {alias}.__k = {key}{second}")
                    i = k
                    if word(i, "ON") and word(i + 1, "TRUE"):
                        i += 2
                    continue
            out.append(emit(t))
            i += 1
        return " ".join(out).replace(" . ", "."), ordered

    def query(self, sql: str) -> tuple[list[str], list[tuple]]:
        text, ordered = self.translate(sql)
        try:
            cur = self.con.execute(text)
            rows = cur.fetchall()
        except sqlite3.Error as e:
            raise SqlError(f"{e}: {text}") from None
        names = [c[0] for c in cur.description]
        if self.dialect in ("postgresql", "oracle"):
            flags = [k for k, n in enumerate(names) if n.lower().startswith("is_")]
            if flags:
                rows = [tuple(bool(v) if k in flags and v in (0, 1) else v for k, v in enumerate(r)) for r in rows]
        if self.reverse and not ordered:
            rows = rows[::-1]
        return names, rows
