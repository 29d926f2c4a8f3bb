"""
P14, the dialects without a model of their server: the script that creates a table is read clause by clause.

What a column can hold is decided from the documentation of Amazon Redshift, Snowflake and Databricks. Types that a server
refuses are not judged, because the error is reported to the user; a type that the server takes but that cannot hold a
value of the field, a column that is optional when the field is not, a lost key or a wrong default are violations.
"""

import datetime
import decimal
from typing import Any, Iterator, Optional

from pysqlsync.factory import get_dialect

from ..core import Run
from ..db import values as V
from ..db import world as W
from ..db.lexer import Tok, tokenize
from ..db.universe import C, E, F, Kind, M, Mode, build, member_name

DIALECTS = ("redshift", "snowflake", "delta")
END = {"NOT", "NULL", "DEFAULT", "GENERATED", "IDENTITY", "COMMENT", "CHECK", "REFERENCES", "UNIQUE", "PRIMARY", "CONSTRAINT"}


class Unreadable(Exception):
    "A statement that is not one to create a table, as far as the reader can tell."


class Column:
    def __init__(self, toks: list[Tok]) -> None:
        self.name = toks[0].value
        n = 1
        depth = 0
        while n < len(toks) and (depth or not (toks[n].kind == "word" and str(toks[n].value).upper() in END)):
            depth += {"(": 1, "<": 1, ")": -1, ">": -1}.get(toks[n].value if toks[n].kind == "op" else "", 0)
            n += 1
        self.type = toks[1:n]
        self.nullable = True
        self.identity = False
        self.default: Optional[list[Tok]] = None
        rest = toks[n:]
        i = 0
        while i < len(rest):
            t = str(rest[i].value).upper() if rest[i].kind == "word" else None
            if t == "NOT" and i + 1 < len(rest) and str(rest[i + 1].value).upper() == "NULL":
                self.nullable = False
                i += 2
            elif t in ("IDENTITY", "GENERATED"):
                self.identity = True
                self.nullable = False
                i += 1
            elif t == "DEFAULT" and not (i and str(rest[i - 1].value).upper() == "BY"):
                j = i + 1
                depth = 0
                while j < len(rest) and (depth or j == i + 1 or not (rest[j].kind == "word" and str(rest[j].value).upper() in END)):
                    depth += {"(": 1, ")": -1}.get(rest[j].value if rest[j].kind == "op" else "", 0)
                    j += 1
                self.default = rest[i + 1 : j]
                i = j
            else:
                i += 1


def split(toks: list[Tok]) -> list[list[Tok]]:
    "Splits tokens at commas outside of parentheses and brackets."

    out: list[list[Tok]] = [[]]
    depth = 0
    for t in toks:
        if t.kind == "op":
            depth += {"(": 1, "<": 1, ")": -1, ">": -1}.get(str(t.value), 0)
            if t.value == "," and depth == 0:
                out.append([])
                continue
        out[-1].append(t)
    return [p for p in out if p]


class Created:
    "Tables that a script creates, by name."

    def __init__(self, sql: str, dialect: str) -> None:
        self.columns: dict[str, list[Column]] = {}
        self.primary: dict[str, list[str]] = {}
        self.unique: dict[str, list[list[str]]] = {}
        self.foreign: dict[str, list[tuple[list[str], str]]] = {}
        statement: list[Tok] = []
        for t in [*tokenize(sql, dialect), Tok("op", ";")]:
            if t.kind == "end":
                continue
            if t.kind == "op" and t.value == ";":
                self.statement(statement)
                statement = []
            else:
                statement.append(t)

    def statement(self, s: list[Tok]) -> None:
        words = [str(t.value).upper() if t.kind == "word" else None for t in s]
        if words[:2] == ["CREATE", "TABLE"]:
            i = 2
            while s[i].kind == "word":
                i += 1
            name, i = self.name(s, i)
            if not (s[i].kind == "op" and s[i].value == "("):
                raise Unreadable(f"{s[i]} after the name of a table")
            depth, j = 1, i + 1
            while depth:
                depth += {"(": 1, ")": -1}.get(str(s[j].value) if s[j].kind == "op" else "", 0)
                j += 1
            self.columns[name] = []
            for part in split(s[i + 1 : j - 1]):
                if part[0].kind == "word" and str(part[0].value).upper() in ("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "CHECK"):
                    self.constraint(name, part)
                else:
                    self.columns[name].append(Column(part))
        elif words[:2] == ["ALTER", "TABLE"]:
            name, i = self.name(s, 2)
            if words[i : i + 1] == ["ADD"]:
                for part in split(s[i:]):
                    self.constraint(name, part[1:] if str(part[0].value).upper() == "ADD" else part)

    def name(self, s: list[Tok], i: int) -> tuple[str, int]:
        while i + 1 < len(s) and s[i + 1].kind == "op" and s[i + 1].value == ".":
            i += 2
        return str(s[i].value), i + 1

    def constraint(self, table: str, part: list[Tok]) -> None:
        words = [str(t.value).upper() if t.kind == "word" else None for t in part]

        def names(start: int) -> list[str]:
            i = next(n for n in range(start, len(part)) if part[n].kind == "op" and part[n].value == "(")
            j = next(n for n in range(i, len(part)) if part[n].kind == "op" and part[n].value == ")")
            return [str(t.value) for t in part[i + 1 : j] if t.kind == "id"]

        if "PRIMARY" in words:
            self.primary[table] = names(words.index("PRIMARY"))
        elif "FOREIGN" in words:
            i = words.index("REFERENCES")
            self.foreign.setdefault(table, []).append((names(words.index("FOREIGN")), self.name(part, i + 1)[0]))
        elif "UNIQUE" in words:
            self.unique.setdefault(table, []).append(names(words.index("UNIQUE")))


# what a type can hold ------------------------------------------------------------------------------


BITS = {"TINYINT": 8, "BYTE": 8, "INT1": 8, "SMALLINT": 16, "SHORT": 16, "INT2": 16, "INTEGER": 32, "INT": 32, "INT4": 32, "BIGINT": 64, "LONG": 64, "INT8": 64}
BINARY = ("VARBYTE", "VARBINARY", "BINARY")
TEXT = ("VARCHAR", "CHAR", "CHARACTER", "NCHAR", "NVARCHAR", "STRING", "TEXT", "BPCHAR")
STAMP = ("TIMESTAMP", "TIMESTAMP_NTZ", "DATETIME", "TIMESTAMP_TZ", "TIMESTAMP_LTZ", "TIMESTAMPTZ")
PLAIN_DECIMAL = {"redshift": (18, 0), "snowflake": (38, 0), "delta": (10, 0)}


def parse(toks: list[Tok]) -> tuple[str, list[int], list[Tok]]:
    "Name of a type, arguments, and the rest."

    if not toks:
        raise Unreadable("no type")
    head = str(toks[0].value).upper()
    i = 1
    while i < len(toks) and toks[i].kind == "word" and str(toks[i].value).upper() in ("PRECISION", "VARYING"):
        head += " " + str(toks[i].value).upper()
        i += 1
    args: list[int] = []
    if i < len(toks) and toks[i].kind == "op" and toks[i].value == "(":
        j = next(n for n in range(i, len(toks)) if toks[n].kind == "op" and toks[n].value == ")")
        args = [int(str(t.value)) for t in toks[i + 1 : j] if t.kind == "num"]
        i = j + 1
    return head, args, toks[i:]


def text_size(dialect: str, head: str, args: list[int]) -> Optional[int]:
    "Number of characters; `None` if the type is not one for text."

    if head == "CHARACTER VARYING":
        head = "VARCHAR"
    if head not in TEXT:
        return None
    if dialect == "redshift":
        if head in ("TEXT", "BPCHAR"):
            return 256  # whatever the argument
        return args[0] if args else {"VARCHAR": 256, "NVARCHAR": 256}.get(head, 1)
    if dialect == "snowflake":
        return args[0] if args else {"CHAR": 1, "CHARACTER": 1, "NCHAR": 1}.get(head, 16777216)
    return args[0] if args else 2**31


def wrong_type(dialect: str, kind: Kind, mode: Mode, toks: list[Tok], items: dict, relation: bool) -> Optional[str]:
    "Tells why a type cannot hold all values of a field; `None` if it can."

    shown = " ".join(str(t.value) for t in toks)
    tag = kind[0]
    if tag == "ref":
        return wrong_type(dialect, items[kind[1:3]].primary.kind, mode, toks, items, relation)
    head, args, rest = parse(toks)
    bad = f"{shown!r} cannot hold all values"
    if tag == "union":
        for k in kind[1]:
            text = wrong_type(dialect, k, mode, toks, items, relation)
            if text:
                return text
        return None
    if tag in ("list", "set"):
        if rest and str(rest[0].value).upper() == "ARRAY":
            return wrong_type(dialect, kind[1], mode, toks[: len(toks) - len(rest)], items, relation) if dialect == "delta" else None
        if head == "STRUCT" and toks[-1].kind == "word" and str(toks[-1].value).upper() == "ARRAY":
            return wrong_type(dialect, kind[1], mode, toks[:-1], items, relation)
        if head == "ARRAY" and len(toks) > 3 and dialect == "delta":
            return wrong_type(dialect, kind[1], mode, toks[2:-1], items, relation)
    if tag in ("list", "set", "struct") and not (tag == "struct" and head == "STRUCT"):
        size = text_size(dialect, head, args)
        if head in ("VARIANT", "SUPER", "JSON", "OBJECT", "ARRAY") or (size is not None and size >= 65535):
            return None
        return bad
    if tag == "struct":
        if dialect != "delta":
            return bad
        inner = toks[2:-1]
        members = split(inner)
        want = items[kind[1:3]].fields
        if [str(m[0].value) for m in members] != [f.name for f in want]:
            return f"members of {shown!r}"
        for m, f in zip(members, want):
            col = Column([x for x in m if not (x.kind == "op" and x.value == ":")])
            if col.nullable != f.opt:
                return f"member {f.name} of {shown!r} {'can' if col.nullable else 'cannot'} be without a value"
            text = wrong_type(dialect, f.kind, mode, col.type, items, relation)
            if text:
                return text
        return None
    if tag in ("enum", "xenum"):
        if relation or tag == "xenum":
            return None if head in BITS and BITS[head] >= 32 else bad
        values = items[kind[1:3]].values
        if isinstance(values[0], int):
            return wrong_type(dialect, ("int", 4), mode, toks, items, relation) and wrong_type(dialect, ("int", 8), mode, toks, items, relation)
        size = text_size(dialect, head, args)
        return None if size is not None and size >= max(len(v) for v in values) else bad
    if tag in ("int", "range"):
        if tag == "range":
            low, high = kind[1:3]
        elif kind[1] < 0:
            low, high = 0, 2 ** (-8 * kind[1]) - 1
        else:
            low, high = -(2 ** (8 * kind[1] - 1)), 2 ** (8 * kind[1] - 1) - 1
        if head in ("DECIMAL", "NUMERIC", "NUMBER"):
            p, s = (args + [0])[:2] if args else PLAIN_DECIMAL[dialect]
            return None if 10 ** (p - s) > max(-low, high) else bad
        if head not in BITS:
            return bad
        if dialect == "snowflake":
            return None  # all integers have 38 digits
        n = BITS[head]
        return None if -(2 ** (n - 1)) <= low and high < 2 ** (n - 1) else bad
    if tag == "bool":
        return None if head in ("BOOLEAN", "BOOL") else bad
    if tag == "float":
        double = head in ("DOUBLE", "DOUBLE PRECISION", "FLOAT8") or (head == "FLOAT" and dialect != "delta") or (dialect == "snowflake" and head in ("REAL", "FLOAT4"))
        single = head in ("REAL", "FLOAT4", "FLOAT")
        return None if double or (kind[1] == 4 and single) else bad
    if tag in ("str", "literal"):
        size = text_size(dialect, head, args)
        need = max(map(len, kind[1:])) if tag == "literal" else kind[1] if len(kind) > 1 else 65535
        return None if size is not None and size >= need else bad
    if tag == "dec":
        if head not in ("DECIMAL", "NUMERIC", "NUMBER"):
            return bad
        if len(kind) == 1:
            return None if args and len(args) == 2 and args[1] > 0 else bad
        p, s = (args + [0])[:2] if args else PLAIN_DECIMAL[dialect]
        return None if s >= kind[2] and p - s >= kind[1] - kind[2] else bad
    if tag in ("bytes", "uuid", "ipv4", "ipv6"):
        if tag == "uuid" and head == "UUID":
            return None
        need = {"bytes": 64000, "uuid": 16, "ipv4": 4, "ipv6": 16}[tag]
        return None if head in BINARY and (not args or args[0] >= need) else bad
    if tag == "datetime":
        precision = kind[1] if len(kind) > 1 else 6
        return None if head in STAMP and (not args or args[0] >= precision) else bad
    if tag == "date":
        return None if head in ("DATE", *STAMP) else bad
    if tag == "time":
        precision = kind[1] if len(kind) > 1 else 6
        return None if head == "TIME" and (not args or args[0] >= precision) else bad
    return None  # no type in common


def literal(kind: Kind, toks: list[Tok]) -> Any:
    "Value of a default, in the form of `V.canon`."

    words = [t for t in toks if not (t.kind == "word" and str(t.value).upper() in ("TIMESTAMP", "DATE", "TIME", "DATETIME"))]
    if len(words) == 2 and words[0].kind == "op" and words[0].value in "+-" and words[1].kind == "num":
        v: Any = decimal.Decimal(f"{words[0].value}{words[1].value}")
    elif len(words) != 1:
        raise Unreadable(" ".join(str(t.value) for t in toks))
    elif words[0].kind == "num":
        v = decimal.Decimal(str(words[0].value))
    elif words[0].kind == "word":
        v = {"TRUE": True, "FALSE": False}[str(words[0].value).upper()]
    else:
        v = words[0].value
    tag = kind[0]
    if tag == "bool":
        return bool(v)
    if tag in ("int", "range"):
        return int(v)
    if tag == "float":
        return float(v)
    if tag == "dec":
        return decimal.Decimal(v)
    if tag == "datetime":
        return datetime.datetime.fromisoformat(v)
    if tag == "date":
        return datetime.date.fromisoformat(v)
    if tag == "time":
        return datetime.time.fromisoformat(v)
    if isinstance(v, decimal.Decimal):
        return int(v)
    return v


def same(kind: Kind, have: Any, v: Any) -> bool:
    if kind[0] in ("datetime", "time") and v.tzinfo is not None:
        v = v.astimezone(datetime.timezone.utc).replace(tzinfo=None) if kind[0] == "datetime" else v.replace(tzinfo=None)
    if kind[0] == "enum":
        return str(have) == str(v)
    return bool(have == v) and isinstance(have, bool) == isinstance(v, bool)


# exploration ---------------------------------------------------------------------------------------


def representable(dialect: str, mode: Mode) -> bool:
    return mode.enum in (None, "check") and (
        mode.struct in (None, "json", "inline") if dialect == "delta" else mode.struct in (None, "json") and mode.array in (None, "json", "relation")
    )


def judged(dialect: str, kind: Kind) -> bool:
    "False for types that the server does not have, at least not of the size."

    if kind[0] == "timedelta":
        return False
    return not (dialect == "redshift" and kind[0] == "str" and len(kind) > 1 and kind[1] > 65535)


def check(run: Run, dialect: str, kind: Kind, mode: Mode, f: F, items: dict, used: list, refusable: Any, report: Any) -> None:
    table = C("T", (f, F("n", ("int", 8)))) if f.key in ("primary", "identity") else W.table("T", f)
    version = (M("app", (*used, table)),)
    try:
        generator = get_dialect(dialect).get_generator_type()(W.options(version, mode))
        sql = generator.create(modules=[build(version)["app"]])
    except Exception as e:
        run.state((dialect, "refused", repr(kind), repr(mode), repr(f)))
        if representable(dialect, mode) and not refusable and mode.array != "relation":
            report("refused", f"{W.error_head(e)} {W.cause(e)!r:.300}")
        return
    if not representable(dialect, mode):
        report("accepted", "a mode that the dialect does not have is accepted")
        return
    run.trace()
    try:
        made = Created(sql, dialect)
        text = judge(run, dialect, kind, mode, f, items, table, made)
    except (Unreadable, LookupError, ValueError, StopIteration) as e:
        text = ("statement", f"{e!r}: {sql:.500}")
    run.transition()
    run.state((dialect, sql))
    run.case((dialect, "text", repr(kind), repr(mode), repr(f)))
    if text is not None:
        report(*text)


def judge(run: Run, dialect: str, kind: Kind, mode: Mode, f: F, items: dict, table: C, made: Created) -> Optional[tuple[str, str]]:
    columns = {str(c.name): c for c in made.columns["T"]}
    linked = kind[0] in ("list", "set") and kind[1][0] == "ref"
    want = [g.name for g in table.fields if not (linked and g.name == "v")]
    if list(columns) != want or len(made.columns["T"]) != len(want):
        return "order", f"columns are {[c.name for c in made.columns['T']]}"
    key = next(g.name for g in table.fields if g.key in ("primary", "identity"))
    if made.primary.get("T") != [key]:
        return "key", f"primary key is {made.primary.get('T')}"
    for g in table.fields:
        if g.name in columns:
            c = columns[g.name]
            if c.nullable != g.opt:
                return "nullable", f"{g.name} {'can' if c.nullable else 'cannot'} be without a value"
            if c.identity != (g.key == "identity"):
                return "identity", f"{g.name}: {c.identity}"
    unique = made.unique.get("T", [])
    if dialect != "delta" and unique != ([["v"]] if f.key == "unique" else []):
        return "unique", f"unique keys are {unique}"
    if linked:
        ref = kind[1]
        name = f"T_v_{ref[2]}"
        if name not in made.columns:
            return "link", f"no table {name}: {list(made.columns)}"
        cols = {str(c.name): c for c in made.columns[name]}
        kinds = {"uuid": ("uuid",), "T_v": ("int", 8), f"{ref[2]}_id": ref}
        if list(cols) != list(kinds) or any(c.nullable for c in cols.values()):
            return "link", f"columns are {[(c.name, c.nullable) for c in cols.values()]}"
        for n, k in kinds.items():
            text = wrong_type(dialect, k, mode, cols[n].type, items, False)
            if text:
                return "link", text
        return None
    col = columns["v"]
    relation = any(cols == ["v"] for cols, _ in made.foreign.get("T", []))
    if judged(dialect, kind):
        text = wrong_type(dialect, kind, mode, col.type, items, relation)
        if text:
            return "capacity", text
    for cols, place in made.foreign.get("T", []):
        inner = kind
        names = [k[2] for k in (inner[1] if inner[0] == "union" else (inner,)) if k[0] in ("ref", "enum", "xenum")]
        if cols != ["v"] or place not in names:
            return "reference", f"{cols} refers to {place}"
    # default
    if dialect == "delta":
        return None if col.default is None else ("default", "a feature that tables do not have unless it is enabled")
    if f.default is not None:
        if col.default is None:
            return "default", "no default"
        v = next(x for x in items[kind[1:3]].values if member_name(x) == f.default) if kind[0] == "enum" else f.default
        have = literal(kind, col.default)
        if not same(kind, have, v):
            return "default", f"{have!r:.200}, not {v!r:.200}"
    elif col.default is not None and not (mode.auto and not f.opt):
        return "default", f"unexpected default {col.default}"
    elif col.default is None and mode.auto and not f.opt and f.key is None and (
        kind[0] in ("int", "bool", "float", "str", "dec", "datetime", "date") or (kind[0] == "union" and all(k[0] in ("int", "float") for k in kind[1]))
    ):
        return "automatic", "no default"
    elif col.default is not None and kind[0] != "union":
        literal(kind, col.default)  # a value of the field
    return None


def work(run: Run, dialect: str, kind: Kind, mode: Mode, fields: Iterator[F], items: dict, used: list, refusable: Any, name: Any) -> None:
    for f in fields:

        def report(what: str, text: str, f: F = f) -> None:
            role = (f.key or "plain") + ("-optional" if f.opt else "") + ("-default" if f.default is not None else "")
            sig = f"{dialect}/{name(kind)}/{what}" if what == "capacity" else f"{dialect}/{name(kind)}/{role}/{what}"
            run.violation(sig, f"{dialect}: {name(kind)} as {role} ({mode!r}): {what}: {text}",
                          {"dialect": dialect, "field": repr(kind), "role": role, "default": repr(f.default), "mode": repr(mode)})

        check(run, dialect, kind, mode, f, items, used, refusable(f), report)
