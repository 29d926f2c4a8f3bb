"""
Column types of the modelled databases: parsing of type specifications, conversion of values on assignment, and the
way the system catalogs describe a type. Written from the documentation of the databases.

A type is a tuple whose first item is its kind.
"""

import datetime
import decimal
import ipaddress
import json
import uuid
from typing import Any, Optional

from .lexer import SqlError

INT_RANGE = {1: (-(2**7), 2**7 - 1), 2: (-(2**15), 2**15 - 1), 4: (-(2**31), 2**31 - 1), 8: (-(2**63), 2**63 - 1)}

# kinds whose values are character strings
STRINGS = {"text", "varchar", "char", "mtext", "clob", "menum", "enum"}
BYTES = {"bytea", "binary", "varbinary", "mblob", "blob", "raw"}
NUMBERS = {"int", "float", "dec", "number", "real"}


def parse_type(p: Any, db: Any) -> tuple:
    "Parses a type specification at the current token of a statement parser."

    base = _parse_base(p, db)
    while db.dialect == "postgresql":
        if p.accept_word("ARRAY"):
            base = ("array", base)
        elif p.peek_op("[") or (p.peek_op("(") and False):
            break
        else:
            break
    return base


def _size(p: Any) -> Optional[tuple[int, ...]]:
    if not p.accept_op("("):
        return None
    out = []
    while True:
        if p.peek_word("MAX"):
            p.next()
            out.append(-1)
        else:
            out.append(int(p.expect_kind("num").value))
            p.accept_word("CHAR", "BYTE")
        if p.accept_op(","):
            continue
        p.expect_op(")")
        return tuple(out)


def _tz(p: Any) -> bool:
    if p.accept_word("WITH"):
        p.accept_word("LOCAL")
        p.expect_word("TIME")
        p.expect_word("ZONE")
        return True
    if p.peek_word("WITHOUT"):
        p.next()
        p.expect_word("TIME")
        p.expect_word("ZONE")
    return False


def _parse_base(p: Any, db: Any) -> tuple:
    d = db.dialect
    t = p.peek()
    if t.kind == "id" or (t.kind == "word" and p.peek_op(".", 1)):
        if d != "postgresql":
            raise SqlError(f"unknown type {t.value!r}")
        schema, name = p.qname()
        return db.resolve_type(schema, name)
    if t.kind != "word":
        raise SqlError(f"type expected at {t!r}")
    p.next()
    w = t.value.upper()

    if d == "postgresql":
        if w in ("SMALLINT", "INT2"):
            return ("int", 2)
        if w in ("INTEGER", "INT", "INT4"):
            return ("int", 4)
        if w in ("BIGINT", "INT8"):
            return ("int", 8)
        if w in ("REAL", "FLOAT4"):
            return ("float", 4)
        if w == "FLOAT8":
            return ("float", 8)
        if w == "DOUBLE":
            p.expect_word("PRECISION")
            return ("float", 8)
        if w == "FLOAT":
            s = _size(p)
            if s is None:
                return ("float", 8)
            if not 1 <= s[0] <= 53:
                raise SqlError("precision for type float must be between 1 and 53 bits")
            return ("float", 4 if s[0] <= 24 else 8)
        if w in ("NUMERIC", "DECIMAL"):
            s = _size(p)
            return ("dec", None, None) if s is None else ("dec", s[0], s[1] if len(s) > 1 else 0)
        if w in ("BOOLEAN", "BOOL"):
            return ("bool",)
        if w == "TEXT":
            return ("text",)
        if w == "VARCHAR" or (w == "CHARACTER" and p.accept_word("VARYING")):
            s = _size(p)
            return ("varchar", None) if s is None else ("varchar", s[0])
        if w in ("CHAR", "CHARACTER"):
            s = _size(p)
            return ("char", 1 if s is None else s[0])
        if w == "BYTEA":
            return ("bytea",)
        if w == "TIMESTAMP":
            s = _size(p)
            tz = _tz(p)
            return ("ts", s[0] if s else None, tz)
        if w == "TIMESTAMPTZ":
            return ("ts", None, True)
        if w == "DATE":
            return ("date",)
        if w == "TIME":
            s = _size(p)
            tz = _tz(p)
            return ("time", s[0] if s else None, tz)
        if w in ("INTERVAL", "UUID", "JSON", "JSONB", "INET"):
            return (w.lower(),)
        # a name that is not built in
        return db.resolve_type(None, t.value.lower())

    if d == "mysql":
        base: Optional[tuple] = None
        if w in ("TINYINT", "SMALLINT", "INTEGER", "INT", "BIGINT", "MEDIUMINT"):
            _size(p)
            base = ("int", {"TINYINT": 1, "SMALLINT": 2, "INTEGER": 4, "INT": 4, "BIGINT": 8, "MEDIUMINT": 3}[w])
            if p.accept_word("UNSIGNED"):
                base = ("int", base[1], True)
        elif w in ("BOOL", "BOOLEAN"):
            base = ("int", 1)
        elif w == "DOUBLE":
            p.accept_word("PRECISION")
            base = ("float", 8)
        elif w == "REAL":
            base = ("float", 8)
        elif w == "FLOAT":
            s = _size(p)
            if s is not None and not 0 <= s[0] <= 53:
                raise SqlError("incorrect column specifier")
            base = ("float", 4 if s is None or s[0] <= 24 else 8)
        elif w in ("DECIMAL", "NUMERIC"):
            s = _size(p) or (10, 0)
            base = ("dec", s[0], s[1] if len(s) > 1 else 0)
        elif w == "VARCHAR":
            s = _size(p)
            if s is None:
                raise SqlError("VARCHAR requires a length")
            if s[0] > 65535:
                raise SqlError("column length too big")
            base = ("varchar", s[0])
        elif w in ("CHAR", "CHARACTER"):
            s = _size(p)
            if s is not None and s[0] > 255:
                raise SqlError("Column length too big for column (max = 255)")
            base = ("char", 1 if s is None else s[0])
        elif w in ("TINYTEXT", "TEXT", "MEDIUMTEXT", "LONGTEXT"):
            _size(p)
            base = ("mtext", w.lower())
        elif w == "BINARY":
            s = _size(p)
            base = ("binary", 1 if s is None else s[0])
        elif w == "VARBINARY":
            s = _size(p)
            if s is None:
                raise SqlError("VARBINARY requires a length")
            base = ("varbinary", s[0])
        elif w in ("TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB"):
            _size(p)
            base = ("mblob", w.lower())
        elif w in ("DATETIME", "TIMESTAMP"):
            s = _size(p)
            if p.peek_word("WITH"):
                raise SqlError("syntax error near 'WITH TIME ZONE'")
            base = ("datetime" if w == "DATETIME" else "ts", s[0] if s else 0)
            if base[1] > 6:
                raise SqlError("too-big precision")
        elif w == "DATE":
            base = ("date",)
        elif w == "TIME":
            s = _size(p)
            if p.peek_word("WITH"):
                raise SqlError("syntax error near 'WITH TIME ZONE'")
            base = ("time", s[0] if s else 0)
            if base[1] > 6:
                raise SqlError("too-big precision")
        elif w == "JSON":
            base = ("json",)
        elif w == "ENUM":
            p.expect_op("(")
            values = []
            while True:
                values.append(p.expect_kind("str").value)
                if p.accept_op(","):
                    continue
                p.expect_op(")")
                break
            trimmed = [v.rstrip(" ") for v in values]
            if len(set(v.lower() for v in trimmed)) != len(trimmed) and len(set(trimmed)) != len(trimmed):
                raise SqlError("column has duplicated value in ENUM")
            base = ("menum", tuple(values))
        if base is None:
            raise SqlError(f"unknown type {t.value}")
        if p.accept_word("CHARACTER"):
            p.expect_word("SET")
            charset = p.next().value
            if base[0] == "menum" and str(charset).lower() == "ascii":
                for v in base[1]:
                    if not v.isascii():
                        raise SqlError(f"invalid ascii character string: {v!r}")
        if p.accept_word("COLLATE"):
            p.next()
        return base

    if d == "mssql":
        if w == "BIT":
            return ("bool",)
        if w in ("TINYINT", "SMALLINT", "INTEGER", "INT", "BIGINT"):
            return ("int", {"TINYINT": 1, "SMALLINT": 2, "INTEGER": 4, "INT": 4, "BIGINT": 8}[w])
        if w == "REAL":
            return ("float", 4)
        if w == "DOUBLE":
            p.expect_word("PRECISION")
            return ("float", 8)
        if w == "FLOAT":
            s = _size(p)
            return ("float", 8 if s is None or s[0] > 24 else 4)
        if w in ("DECIMAL", "NUMERIC"):
            s = _size(p) or (18, 0)
            if s[0] > 38:
                raise SqlError("precision exceeds 38")
            return ("dec", s[0], s[1] if len(s) > 1 else 0)
        if w in ("VARCHAR", "NVARCHAR"):
            s = _size(p) or (1,)
            if s[0] > 8000:
                raise SqlError("the size given exceeds the maximum allowed for any data type (8000)")
            return ("varchar", None if s[0] == -1 else s[0])
        if w in ("CHAR", "NCHAR"):
            s = _size(p) or (1,)
            if s[0] > 8000:
                raise SqlError("the size given exceeds the maximum allowed for any data type (8000)")
            return ("char", s[0])
        if w == "TEXT":
            return ("mtext", "text")
        if w == "BINARY":
            s = _size(p) or (1,)
            if s[0] > 8000:
                raise SqlError("the size given exceeds the maximum allowed for any data type (8000)")
            return ("binary", s[0])
        if w == "VARBINARY":
            s = _size(p) or (1,)
            if s[0] > 8000:
                raise SqlError("the size given exceeds the maximum allowed for any data type (8000)")
            return ("varbinary", None if s[0] == -1 else s[0])
        if w == "DATETIME2":
            s = _size(p)
            return ("datetime", s[0] if s else 7)
        if w == "DATETIME":
            return ("datetime", 3)
        if w == "DATE":
            return ("date",)
        if w == "TIME":
            s = _size(p)
            if p.peek_word("WITH"):
                raise SqlError("syntax error near 'WITH'")
            return ("time", s[0] if s else 7)
        if w == "UNIQUEIDENTIFIER":
            return ("uuid",)
        raise SqlError(f"cannot find data type {t.value}")

    if d == "oracle":
        if w == "NUMBER":
            s = _size(p)
            return ("number", None, None) if s is None else ("number", s[0], s[1] if len(s) > 1 else 0)
        if w in ("INTEGER", "INT", "SMALLINT"):
            return ("number", 38, 0)
        if w in ("DECIMAL", "NUMERIC"):
            s = _size(p)
            return ("number", 38, 0) if s is None else ("number", s[0], s[1] if len(s) > 1 else 0)
        if w == "FLOAT":
            _size(p)
            return ("real", 126)
        if w == "REAL":
            return ("real", 63)
        if w == "DOUBLE":
            p.expect_word("PRECISION")
            return ("real", 126)
        if w in ("BINARY_FLOAT", "BINARY_DOUBLE"):
            return ("float", 4 if w == "BINARY_FLOAT" else 8)
        if w == "BOOLEAN":
            return ("bool",)
        if w in ("VARCHAR2", "VARCHAR"):
            s = _size(p)
            if s is None:
                raise SqlError("ORA-00906: missing left parenthesis")
            if s[0] > 4000:
                raise SqlError("ORA-00910: specified length too long for its datatype")
            return ("varchar", s[0])
        if w in ("CHAR", "CHARACTER"):
            s = _size(p)
            if s is not None and s[0] > 2000:
                raise SqlError("ORA-00910: specified length too long for its datatype")
            return ("char", 1 if s is None else s[0])
        if w in ("CLOB", "BLOB"):
            return (w.lower(),)
        if w == "JSON":
            return ("json",)
        if w == "RAW":
            s = _size(p)
            if s is None:
                raise SqlError("ORA-00906: missing left parenthesis")
            if s[0] > 2000:
                raise SqlError("ORA-00910: specified length too long for its datatype")
            return ("raw", s[0])
        if w == "TIMESTAMP":
            s = _size(p)
            tz = _tz(p)
            return ("ts", s[0] if s else 6, tz)
        if w == "DATE":
            return ("date",)
        if w == "INTERVAL":
            p.expect_word("DAY")
            _size(p)
            p.expect_word("TO")
            p.expect_word("SECOND")
            _size(p)
            return ("interval",)
        raise SqlError(f"ORA-00902: invalid datatype {t.value}")

    raise SqlError("unknown dialect")


def nullable_default(typ: tuple, db: Any) -> Any:
    "MySQL: implicit default of a NOT NULL column that is added to a populated table."

    kind = typ[0]
    if kind in ("int", "float", "dec"):
        return 0
    if kind in ("varchar", "char", "mtext"):
        return ""
    if kind == "menum":
        return typ[1][0]
    if kind in ("binary",):
        return b"\0" * typ[1]
    if kind in ("varbinary", "mblob"):
        return b""
    if kind == "json":
        return "null"
    raise SqlError("incorrect implicit default value (zero date)")


def is_keyable(typ: tuple, dialect: str) -> bool:
    kind = typ[0]
    if dialect == "postgresql":
        return kind not in ("json",)
    if dialect == "mysql":
        if kind in ("mtext", "mblob", "json"):
            return False
        if kind in ("varchar", "char"):
            return typ[1] * 4 <= 3072
        if kind in ("varbinary", "binary"):
            return typ[1] <= 3072
        return True
    if dialect == "mssql":
        if kind == "mtext":
            return False
        if kind in ("varchar", "varbinary"):
            return typ[1] is not None
        return True
    return kind not in ("clob", "blob", "json")


def fk_compatible(a: tuple, b: tuple, dialect: str) -> bool:
    if dialect == "postgresql":
        if a[0] in ("int", "dec", "float") and b[0] in ("int", "dec", "float"):
            return True
        if a[0] in ("text", "varchar", "char") and b[0] in ("text", "varchar", "char"):
            return True
        return a == b or (a[0] == b[0] and a[0] not in ("enum", "struct", "array"))
    if dialect == "mysql":
        if a[0] == b[0] and a[0] in ("varchar", "char", "varbinary", "binary"):
            return True
        if {a[0], b[0]} <= {"varchar", "char"} or {a[0], b[0]} <= {"varbinary", "binary"}:
            return True
        return a == b
    if dialect == "mssql":
        return a == b
    if a[0] == b[0] or {a[0], b[0]} <= {"varchar", "char"}:
        return True
    return False


# values ------------------------------------------------------------------------


def _int(v: Any) -> Optional[int]:
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    return None


def _exact(v: Any) -> Any:
    "Numbers are kept as int where integral, else Decimal."

    if isinstance(v, decimal.Decimal):
        if not v.is_finite():
            return v
        return int(v) if v == v.to_integral_value() else v.normalize()
    return v


def _parse_ts(s: str) -> datetime.datetime:
    return datetime.datetime.fromisoformat(s)


def _round_ts(v: Any, prec: Optional[int]) -> Any:
    if prec is None or prec >= 6:
        return v
    unit = 10 ** (6 - prec)
    us = v.microsecond
    q, r = divmod(us, unit)
    if r * 2 >= unit:
        q += 1
    if isinstance(v, datetime.datetime):
        return v.replace(microsecond=0) + datetime.timedelta(microseconds=q * unit)
    full = datetime.datetime.combine(datetime.date(2000, 1, 1), v.replace(microsecond=0)) + datetime.timedelta(
        microseconds=q * unit
    )
    return full.timetz() if v.tzinfo else full.time()


def assign(typ: tuple, v: Any, db: Any, origin: str = "param") -> Any:
    """
    Converts a value to be stored in a column, or raises an error if the database refuses it.

    :param origin: `param` (bound parameter of the driver), `copy` (binary copy) or `literal` (text in the statement, or
        a value of another column).
    """

    if getattr(db, "lax", False):
        try:
            return _assign(typ, v, db, origin)
        except SqlError:
            return _fit(typ, v, db)
    return _assign(typ, v, db, origin)


def _fit(typ: tuple, v: Any, db: Any) -> Any:
    "The value that is stored in place of one that does not fit."

    kind = typ[0]
    if kind == "int" and isinstance(v, (int, float, decimal.Decimal)):
        width, unsigned = typ[1], len(typ) > 2 and typ[2]
        lo, hi = (0, 2 ** (8 * width) - 1) if unsigned else (-(2 ** (8 * width - 1)), 2 ** (8 * width - 1) - 1)
        return min(max(int(v), lo), hi)
    if kind in ("varchar", "char") and isinstance(v, (str, bytes)) and len(typ) > 1 and typ[1]:
        return _assign(typ, v[: typ[1]], db, "literal")
    if kind == "menum":
        return ""
    raise SqlError(f"invalid input for type {typ!r}: {v!r}")


def _assign(typ: tuple, v: Any, db: Any, origin: str = "param") -> Any:
    if v is None:
        return None
    d = db.dialect
    kind = typ[0]
    strict = d == "postgresql" and origin in ("param", "copy")
    if d == "oracle" and isinstance(v, (str, bytes)) and len(v) == 0:
        return None

    def bad() -> SqlError:
        return SqlError(f"invalid input for type {typ!r}: {v!r} ({type(v).__name__})")

    if kind == "int":
        n = _int(v)
        if n is None and not strict:
            if isinstance(v, str):
                try:
                    n = int(v.strip())
                except ValueError:
                    raise bad() from None
            elif isinstance(v, decimal.Decimal):
                n = int(v.to_integral_value(decimal.ROUND_HALF_UP))
            elif isinstance(v, float):
                n = round(v)
        if n is None:
            raise bad()
        width = typ[1]
        lo, hi = INT_RANGE.get(width, (-(2**23), 2**23 - 1))
        if d == "mssql" and width == 1:
            lo, hi = 0, 255
        if len(typ) > 2 and typ[2]:
            lo, hi = 0, 2 ** (8 * width) - 1
        if not lo <= n <= hi:
            raise SqlError(f"value {n} out of range for type {typ!r}")
        return n
    if kind == "bool":
        if isinstance(v, bool):
            return v
        if not strict:
            if isinstance(v, int) and (d in ("mssql", "oracle")):
                return v != 0
            if isinstance(v, str) and v.strip().lower() in ("true", "t", "1", "yes", "on"):
                return True
            if isinstance(v, str) and v.strip().lower() in ("false", "f", "0", "no", "off"):
                return False
        raise bad()
    if kind in ("float", "real"):
        if isinstance(v, bool) and d == "postgresql":
            raise bad()
        if isinstance(v, (int, float)):
            f = float(v)
        elif isinstance(v, decimal.Decimal):
            f = float(v)
        elif isinstance(v, str) and not strict:
            try:
                f = float(v)
            except ValueError:
                raise bad() from None
        else:
            raise bad()
        if kind == "float" and typ[1] == 4:
            import struct as _struct

            try:
                f = _struct.unpack("f", _struct.pack("f", f))[0]
            except OverflowError:
                raise SqlError("out of range for real") from None
        if d == "mysql" and f != f:
            raise bad()
        return f
    if kind in ("dec", "number"):
        if isinstance(v, bool):
            if d == "postgresql":
                raise bad()
            n = decimal.Decimal(int(v))
        elif isinstance(v, (int, decimal.Decimal)):
            n = decimal.Decimal(v)
        elif isinstance(v, float):
            n = decimal.Decimal(repr(v))
        elif isinstance(v, str):
            try:
                n = decimal.Decimal(v.strip())
            except decimal.InvalidOperation:
                raise bad() from None
        else:
            raise bad()
        prec, scale = typ[1], typ[2]
        if not n.is_finite():
            raise bad()
        ctx = decimal.Context(prec=200)
        if prec is not None:
            n = n.quantize(decimal.Decimal(1).scaleb(-(scale or 0)), rounding=decimal.ROUND_HALF_UP, context=ctx)
            if n != 0 and n.copy_abs().adjusted() >= prec - (scale or 0):
                raise SqlError(f"numeric field overflow: {n} for {typ!r}")
        if kind == "number" and len(n.as_tuple().digits) > 38 + max(0, n.as_tuple().exponent if n else 0):
            raise SqlError("ORA-01426: numeric overflow")
        n = ctx.create_decimal(n)
        return int(n) if n == n.to_integral_value() else n.normalize(ctx)
    if kind in ("text", "varchar", "char", "mtext", "clob"):
        if isinstance(v, str):
            s = str(v)
        elif strict:
            raise bad()
        elif isinstance(v, bool):
            s = str(int(v)) if d in ("mysql", "mssql", "oracle") else ("true" if v else "false")
        elif isinstance(v, (int, decimal.Decimal, float, uuid.UUID)):
            s = str(v)
        elif isinstance(v, (datetime.datetime, datetime.date, datetime.time)):
            s = v.isoformat(sep=" ") if isinstance(v, datetime.datetime) else v.isoformat()
        elif isinstance(v, bytes) and d == "mysql":
            try:
                s = v.decode("utf-8")
            except UnicodeDecodeError:
                raise bad() from None
        else:
            raise bad()
        if d == "postgresql" and "\0" in s:
            raise SqlError("invalid byte sequence for encoding: 0x00")
        try:
            size = len(s.encode("utf-8"))
        except UnicodeEncodeError:
            raise bad() from None
        if kind in ("varchar", "char") and typ[1] is not None:
            length = size if d in ("mssql", "oracle") else len(s)
            if length > typ[1]:
                if d == "postgresql" and len(s.rstrip(" ")) <= typ[1]:
                    s = s[: typ[1]]
                else:
                    raise SqlError(f"value too long for type {typ!r}: {s!r}")
        if kind == "mtext" and d == "mysql":
            if size > {"tinytext": 255, "text": 65535, "mediumtext": 16777215, "longtext": 2**32 - 1}[typ[1]]:
                raise SqlError("data too long for column")
        if kind == "char":
            if d == "mysql":
                s = s.rstrip(" ")
            elif typ[1] is not None:
                s = s.ljust(typ[1])
        return s
    if kind in BYTES:
        if isinstance(v, (bytes, bytearray, memoryview)):
            b = bytes(v)
        elif isinstance(v, str) and not strict and d == "mysql":
            b = v.encode("utf-8")
        else:
            raise bad()
        if kind in ("binary", "varbinary", "raw") and typ[1] is not None and len(b) > typ[1]:
            raise SqlError(f"binary value too long for {typ!r}")
        if kind == "mblob":
            if len(b) > {"tinyblob": 255, "blob": 65535, "mediumblob": 16777215, "longblob": 2**32 - 1}[typ[1]]:
                raise SqlError("data too long for column")
        if kind == "binary":
            b = b.ljust(typ[1], b"\0")
        return b
    if kind in ("ts", "datetime"):
        tz = kind == "ts" and len(typ) > 2 and typ[2]
        if isinstance(v, str) and d == "oracle":
            raise SqlError("ORA-01861: literal does not match format string")
        if isinstance(v, str) and not strict:
            try:
                v = _parse_ts(v)
            except ValueError:
                raise bad() from None
        elif isinstance(v, datetime.date) and not isinstance(v, datetime.datetime):
            if strict:
                pass  # asyncpg accepts dates for timestamps
            v = datetime.datetime(v.year, v.month, v.day)
        if not isinstance(v, datetime.datetime):
            raise bad()
        if tz:
            if v.tzinfo is None:
                v = v.replace(tzinfo=datetime.timezone.utc)
            v = v.astimezone(datetime.timezone.utc)
        else:
            if v.tzinfo is not None:
                if strict:
                    raise SqlError("can't subtract offset-naive and offset-aware datetimes")
                if d == "mysql":
                    # the driver prints the wall-clock time and drops the offset
                    v = v.replace(tzinfo=None)
                elif d == "mssql":
                    v = v.replace(tzinfo=None)
                else:
                    v = v.replace(tzinfo=None)
        return _round_ts(v, typ[1])
    if kind == "date":
        if isinstance(v, str) and d == "oracle":
            raise SqlError("ORA-01861: literal does not match format string")
        if isinstance(v, str) and not strict:
            try:
                v = datetime.date.fromisoformat(v[:10])
            except ValueError:
                raise bad() from None
        if isinstance(v, datetime.datetime):
            if strict:
                return v.date()
            return v if d == "oracle" else v.date()
        if not isinstance(v, datetime.date):
            raise bad()
        return v
    if kind == "time":
        if isinstance(v, str) and not strict:
            try:
                v = datetime.time.fromisoformat(v)
            except ValueError:
                raise bad() from None
        if isinstance(v, datetime.timedelta) and d == "mysql":
            v = (datetime.datetime.min + v).time()
        if not isinstance(v, datetime.time):
            raise bad()
        tz = len(typ) > 2 and typ[2]
        if not tz and v.tzinfo is not None:
            v = v.replace(tzinfo=None)
        if tz and v.tzinfo is None:
            raise bad()
        return _round_ts(v, typ[1])
    if kind == "interval":
        if isinstance(v, datetime.timedelta):
            return v
        raise bad()
    if kind == "uuid":
        if isinstance(v, uuid.UUID):
            return v
        if isinstance(v, str):
            try:
                return uuid.UUID(v)
            except ValueError:
                raise bad() from None
        raise bad()
    if kind in ("json", "jsonb"):
        if isinstance(v, bytes) and not strict:
            v = v.decode("utf-8")
        if not isinstance(v, str):
            raise bad()
        try:
            parsed = json.loads(v)
        except ValueError:
            raise SqlError(f"invalid input syntax for type json: {v!r}") from None
        if d == "postgresql" and kind == "json":
            return v
        return json.dumps(parsed, sort_keys=True)
    if kind == "inet":
        if isinstance(v, (ipaddress.IPv4Address, ipaddress.IPv6Address, ipaddress.IPv4Interface)):
            return ipaddress.ip_interface(v)
        if isinstance(v, str):
            try:
                return ipaddress.ip_interface(v)
            except ValueError:
                raise bad() from None
        raise bad()
    if kind == "menum":
        if not isinstance(v, str):
            raise bad()
        if v not in typ[1]:
            raise SqlError(f"data truncated for enumeration column: {v!r}")
        return str(v)
    if kind == "enum":
        if not isinstance(v, str):
            raise bad()
        values = db.schemas[typ[1]].enums[typ[2]].values
        if v not in values:
            raise SqlError(f"invalid input value for enum {typ[2]}: {v!r}")
        return str(v)
    if kind == "array":
        if not isinstance(v, (list, tuple)):
            raise bad()
        return tuple(assign(typ[1], item, db, origin) for item in v)
    if kind == "struct":
        members = db.schemas[typ[1]].structs[typ[2]].members
        if isinstance(v, dict):
            # the driver looks up members by name, missing members are NULL
            names = [m.name for m in members]
            unknown = [k for k in v if k not in names]
            if unknown:
                raise SqlError(f"{unknown[0]!r} is not a valid element of composite type {typ[2]}")
            v = tuple(v.get(k) for k in names)
        if not isinstance(v, (tuple, list)):
            raise bad()
        if len(v) != len(members):
            raise bad()
        return tuple(assign(m.typ, item, db, origin) for m, item in zip(members, v))
    raise SqlError(f"type not modelled: {typ!r}")


def can_cast(src: tuple, dst: tuple, dialect: str) -> bool:
    "PostgreSQL: whether an assignment cast from a type to another exists."

    if src == dst or src[0] == dst[0] and src[0] not in ("enum", "struct", "array"):
        return True
    s, t = src[0], dst[0]
    text = ("text", "varchar", "char")
    if t in text:
        return True
    if s in ("int", "float", "dec") and t in ("int", "float", "dec"):
        return True
    if (s, t) in (("ts", "date"), ("date", "ts"), ("ts", "time"), ("time", "interval"), ("interval", "time"), ("json", "jsonb"), ("jsonb", "json")):
        return True
    if s == "array" and t == "array":
        return can_cast(src[1], dst[1], dialect)
    return False


def convert(src: tuple, dst: tuple, v: Any, db: Any) -> Any:
    "Value of a column after its type has changed."

    if v is None or src == dst:
        return v
    if dst[0] in ("text", "varchar", "mtext", "clob") and src[0] == "char" and isinstance(v, str):
        v = v.rstrip(" ")
    return assign(dst, v, db, "literal")


# catalogs ----------------------------------------------------------------------

PG_NAMES = {
    ("int", 2): ("int2", "smallint"), ("int", 4): ("int4", "integer"), ("int", 8): ("int8", "bigint"),
    ("float", 4): ("float4", "real"), ("float", 8): ("float8", "double precision"),
    ("bool",): ("bool", "boolean"), ("text",): ("text", "text"), ("bytea",): ("bytea", "bytea"),
    ("date",): ("date", "date"), ("interval",): ("interval", "interval"), ("uuid",): ("uuid", "uuid"),
    ("json",): ("json", "json"), ("jsonb",): ("jsonb", "jsonb"), ("inet",): ("inet", "inet"),
}


def pg_typname(typ: tuple) -> tuple[Optional[str], str]:
    "Schema (None if built in) and name of a type in `pg_type`."

    kind = typ[0]
    if typ in PG_NAMES:
        return None, PG_NAMES[typ][0]
    if kind == "dec":
        return None, "numeric"
    if kind == "varchar":
        return None, "varchar"
    if kind == "char":
        return None, "bpchar"
    if kind == "ts":
        return None, "timestamptz" if typ[2] else "timestamp"
    if kind == "time":
        return None, "timetz" if typ[2] else "time"
    if kind in ("enum", "struct"):
        return typ[1], typ[2]
    if kind == "array":
        schema, name = pg_typname(typ[1])
        return schema, "_" + name
    raise SqlError(f"type without a name: {typ!r}")


def _pg_quote(name: str) -> str:
    import re

    if re.fullmatch(r"[a-z_][a-z0-9_$]*", name):
        return name
    return '"' + name.replace('"', '""') + '"'


def pg_format_type(typ: tuple, search_path: str = "public") -> str:
    kind = typ[0]
    if typ in PG_NAMES:
        return PG_NAMES[typ][1]
    if kind == "dec":
        return "numeric" if typ[1] is None else f"numeric({typ[1]},{typ[2]})"
    if kind == "varchar":
        return "character varying" if typ[1] is None else f"character varying({typ[1]})"
    if kind == "char":
        return f"character({typ[1]})"
    if kind in ("ts", "time"):
        name = "timestamp" if kind == "ts" else "time"
        prec = f"({typ[1]})" if typ[1] is not None else ""
        return f"{name}{prec} {'with' if typ[2] else 'without'} time zone"
    if kind in ("enum", "struct"):
        if typ[1] == search_path:
            return _pg_quote(typ[2])
        return f"{_pg_quote(typ[1])}.{_pg_quote(typ[2])}"
    if kind == "array":
        return pg_format_type(typ[1], search_path) + "[]"
    raise SqlError(f"type without a name: {typ!r}")


def info_type(typ: tuple, dialect: str) -> dict[str, Any]:
    "Columns of `information_schema.columns` that describe a type."

    r: dict[str, Any] = dict(
        data_type=None, column_type=None, character_maximum_length=None, numeric_precision=None, numeric_scale=None,
        datetime_precision=None,
    )
    kind = typ[0]
    if dialect == "mysql":
        if kind == "int":
            name = {1: "tinyint", 2: "smallint", 3: "mediumint", 4: "int", 8: "bigint"}[typ[1]]
            unsigned = " unsigned" if len(typ) > 2 else ""
            r.update(data_type=name, column_type=name + unsigned, numeric_precision={1: 3, 2: 5, 3: 7, 4: 10, 8: 19}[typ[1]], numeric_scale=0)
        elif kind == "float":
            name = "float" if typ[1] == 4 else "double"
            r.update(data_type=name, column_type=name, numeric_precision=12 if typ[1] == 4 else 22)
        elif kind == "dec":
            r.update(data_type="decimal", column_type=f"decimal({typ[1]},{typ[2]})", numeric_precision=typ[1], numeric_scale=typ[2])
        elif kind in ("varchar", "char", "binary", "varbinary"):
            r.update(data_type=kind, column_type=f"{kind}({typ[1]})", character_maximum_length=typ[1])
        elif kind in ("mtext", "mblob"):
            size = {"tiny": 255, "medium": 16777215, "long": 4294967295}
            prefix = typ[1][:-4]
            r.update(data_type=typ[1], column_type=typ[1], character_maximum_length=size.get(prefix, 65535))
        elif kind in ("datetime", "ts", "time"):
            name = {"datetime": "datetime", "ts": "timestamp", "time": "time"}[kind]
            r.update(data_type=name, column_type=name + (f"({typ[1]})" if typ[1] else ""), datetime_precision=typ[1])
        elif kind == "date":
            r.update(data_type="date", column_type="date")
        elif kind == "json":
            r.update(data_type="json", column_type="json")
        elif kind == "menum":
            escapes = str.maketrans({"\\": "\\\\", "\0": "\\0", "'": "''", "\n": "\\n", "\r": "\\r"})
            vals = ",".join("'" + v.translate(escapes) + "'" for v in typ[1])
            r.update(data_type="enum", column_type=f"enum({vals})", character_maximum_length=max(len(v) for v in typ[1]))
        else:
            raise SqlError(f"type without a name: {typ!r}")
        return r
    if dialect == "mssql":
        if kind == "bool":
            r.update(data_type="bit")
        elif kind == "int":
            name = {1: "tinyint", 2: "smallint", 4: "int", 8: "bigint"}[typ[1]]
            r.update(data_type=name, numeric_precision={1: 3, 2: 5, 4: 10, 8: 19}[typ[1]], numeric_scale=0)
        elif kind == "float":
            r.update(data_type="real" if typ[1] == 4 else "float", numeric_precision=24 if typ[1] == 4 else 53)
        elif kind == "dec":
            r.update(data_type="decimal", numeric_precision=typ[1], numeric_scale=typ[2])
        elif kind in ("varchar", "varbinary"):
            r.update(data_type=kind, character_maximum_length=-1 if typ[1] is None else typ[1])
        elif kind in ("char", "binary"):
            r.update(data_type=kind, character_maximum_length=typ[1])
        elif kind == "mtext":
            r.update(data_type="text", character_maximum_length=2147483647)
        elif kind == "datetime":
            r.update(data_type="datetime" if typ[1] == 3 else "datetime2", datetime_precision=typ[1])
        elif kind == "date":
            r.update(data_type="date", datetime_precision=0)
        elif kind == "time":
            r.update(data_type="time", datetime_precision=typ[1])
        elif kind == "uuid":
            r.update(data_type="uniqueidentifier")
        else:
            raise SqlError(f"type without a name: {typ!r}")
        return r
    raise SqlError("no information schema")


def oracle_type(typ: tuple) -> dict[str, Any]:
    r: dict[str, Any] = dict(data_type=None, data_length=22, data_precision=None, data_scale=None, char_length=0)
    kind = typ[0]
    if kind == "number":
        r.update(data_type="NUMBER", data_precision=typ[1], data_scale=typ[2])
    elif kind == "real":
        r.update(data_type="FLOAT", data_precision=typ[1])
    elif kind == "float":
        r.update(data_type="BINARY_FLOAT" if typ[1] == 4 else "BINARY_DOUBLE", data_length=typ[1])
    elif kind == "bool":
        r.update(data_type="BOOLEAN", data_length=1)
    elif kind in ("varchar", "char"):
        r.update(data_type="VARCHAR2" if kind == "varchar" else "CHAR", data_length=typ[1], char_length=typ[1])
    elif kind in ("clob", "blob"):
        r.update(data_type=kind.upper(), data_length=4000)
    elif kind == "json":
        r.update(data_type="JSON", data_length=8200)
    elif kind == "raw":
        r.update(data_type="RAW", data_length=typ[1])
    elif kind == "ts":
        r.update(data_type=f"TIMESTAMP({typ[1]})" + (" WITH TIME ZONE" if typ[2] else ""), data_length=11, data_scale=typ[1])
    elif kind == "date":
        r.update(data_type="DATE", data_length=7)
    elif kind == "interval":
        r.update(data_type="INTERVAL DAY(2) TO SECOND(6)", data_length=11, data_precision=2, data_scale=6)
    else:
        raise SqlError(f"type without a name: {typ!r}")
    return r
