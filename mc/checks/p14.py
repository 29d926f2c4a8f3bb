"""
P14: class definitions map to columns and constraints with their declared meaning.

Every kind of field, in every role, default and mode, is created by the real library on a model of each database server.
What the table can hold and what it refuses is then probed with values, and compared with the declaration by an oracle that
is independent of the library.
"""

import datetime
import ipaddress
import json
import typing
import uuid
from typing import Any, Iterator, Optional

from . import p14_text
from ..core import Run, parallel
from ..db import drivers as D
from ..db import sqltypes as T
from ..db import values as V
from ..db import world as W
from ..db.model import Env, SqlError, evaluate
from ..db.universe import DEFAULT_SCHEMA, FLAT, C, E, Expected, F, Kind, M, Mode, difference, member_name, type_text

LEVEL = "model_checking"
RULE = (
    "dialect x mode (enumerations, composite types, lists, references, automatic defaults) x kind of field x optional x key x "
    "default, each probed with all boundary values of the kind and values just outside; non-trivial = a distinct (dialect, "
    "mode, field, probe)"
)
ASSUMPTIONS = [
    "the database is a model of the server of each dialect, which holds or rejects each value by type and constraint",
    "fields whose type or default no dialect can express may be refused with an error, but only before any change",
]

E1 = E("E", ("a", "b", "it's", 'x "y"', "NULL"))
N1 = E("N", (1, 20, -3))
X1 = E("X", ("unspecified",))
S1 = C("S", (F("x", ("int", 8)), F("y", ("str",), opt=True)))
S3 = C("O", (F("y", ("str",), opt=True), F("x", ("int", 8)), F("z", ("float", 8))))
S2 = C("P", (F("s", ("struct", "app", "S")), F("n", ("int", 4))))
REFS = tuple(C(n, (F("id", k, key="primary"), F("n", ("int", 8), opt=True)))
             for n, k in (("Q", ("uuid",)), ("R", ("str", 20)), ("I", ("ipv4",)), ("J", ("int", 4)), ("K", ("int", 4)), ("L", ("int", 8))))
ITEMS = {("app", i.name): i for i in (*REFS, E1, N1, X1, S1, S2, S3)}
ENUM = ("enum", "app", "E")
INTS = ("enum", "app", "N")
XENUM = ("xenum", "app", "X")
STRUCT = ("struct", "app", "S")


def ref(name: str) -> Kind:
    return ("ref", "app", name)


UNIONS = (("union", (("ipv4",), ("ipv6",))), ("union", (("literal", ("unknown",)), ("str", 40))), ("union", (ref("J"), ref("K"))),
          ("union", (("int", 2), ("int", 4))), ("union", (("int", 4), ("str", 40))), ("union", (ref("J"), ref("L"))),
          ("union", (("float", 4), ("float", 8))),
          ("union", (("literal", ("a",)), ("literal", ("long value",)))))
SCALARS: tuple[Kind, ...] = (
    *(("int", n) for n in (1, 2, 4, 8, -1, -2, -4, -8)), ("range", -5, 5), ("range", -7, 0), ("range", 0, 2**40), ("bool",), ("float", 4), ("float", 8),
    ("str",), ("str", 1), ("str", 20), ("str", 255), ("str", 256), ("str", 4000), ("str", 70000), ("dec",), ("dec", 10, 2), ("dec", 5, 5),
    ("bytes",), ("datetime",), ("datetime", 6), ("datetime", 3), ("datetime", 0), ("date",), ("time",), ("time", 6), ("time", 3), ("time", 0),
    ("str", 65535), ("str", 65536), ("str", 4001), ("str", 8001), ("dec", 28, 10), ("dec", 10, 0),
    ("timedelta",), ("uuid",), ("ipv4",),
    ("ipv6",), ("literal", ("one", "other")), ("literal", ("x",)), ("literal", ("α", "日本")))


def kinds() -> list[Kind]:
    return [*SCALARS, *UNIONS, ENUM, INTS, XENUM, STRUCT, ("struct", "app", "P"), ("struct", "app", "O"), *(ref(i.name) for i in REFS[:4]),
            *(("list", k) for k in (("int", 8), ("int", -4), ("str",), ("uuid",), ("date",), ENUM, INTS, STRUCT, ref("Q"), ref("J"))),
            *(("set", k) for k in (("int", 8), ("str",), ENUM, INTS, ref("Q"), ref("J")))]


def modes(dialect: str, kind: Kind, deep: bool) -> list[Mode]:
    inner = kind[1] if kind[0] in ("list", "set") else kind
    out = [Mode()]
    if inner[0] == "enum":
        out = [Mode(enum=e) for e in ("type", "inline", "check", "relation")]
    if inner[0] == "xenum":
        out = [Mode(enum=e) for e in (None, "check", "relation")]
    if inner[0] == "struct":
        out = [Mode(struct=s) for s in ("type", "inline", "json")]
    if kind[0] in ("list", "set"):
        out = [m.replace(array=a) for m in out for a in ("array", "json", "relation")]
    out += [m.replace(foreign=False) for m in out]
    if kind[0] not in ("list", "set"):
        out += [m.replace(auto=True) for m in out if m.foreign]
    return out


def fields(kind: Kind, dialect: str) -> Iterator[F]:
    yield F("v", kind)
    yield F("v", kind, opt=True)
    if kind[0] in ("int", "uuid", "date", "datetime", "ipv4", "range") or kind == ("str", 20):
        yield F("v", kind, key="primary")
    if kind[0] == "int" and kind[1] > 1:
        yield F("v", kind, key="identity")
    if kind[0] in ("int", "uuid", "date", "datetime", "ipv4", "enum", "range", "ref") or kind == ("str", 20):
        yield F("v", kind, key="unique")
        yield F("v", kind, opt=True, key="unique")
    if kind[0] in ("list", "set", "struct", "ref", "xenum", "union"):
        return
    for v in V.boundary(kind, dialect, ITEMS):
        if kind[0] == "enum":
            v = member_name(v)
        if kind[0] in ("str", "bytes") and len(v) > 300:
            continue
        yield F("v", kind, default=v)
        yield F("v", kind, opt=True, default=v)


def representable(dialect: str, mode: Mode) -> bool:
    "True if the dialect has the types that the mode asks for."

    if dialect == "postgresql":
        return mode.enum != "inline" and mode.struct != "inline"
    if mode.enum == "type" or (mode.enum == "inline" and dialect != "mysql"):
        return False
    return mode.struct in (None, "json") and mode.array in (None, "json", "relation")


def refusable(dialect: str, mode: Mode, f: F) -> bool:
    "True if the field has no meaning in the mode, or no column type can express it."

    kind, inner = f.kind, f.kind
    if kind[0] in ("list", "set"):
        inner = kind[1]
        if inner[0] != "ref" and mode.array_mode(dialect) == "relation":
            # values that are not stored in a table of their own cannot be linked
            return not (inner[0] == "enum" and mode.enum_mode(dialect) == "relation")
    if kind[0] == "union":
        if {k[0] for k in kind[1]} == {"int", "str"}:
            return True
        keys = {ITEMS[k[1:3]].primary.kind for k in kind[1] if k[0] == "ref"}
        return len(keys) > 1
    if f.default is not None:
        if kind[0] == "enum":
            return mode.enum_mode(dialect) == "relation"  # identifiers are assigned by the database
        # there is no literal of the type common to all dialects
        return kind[0] in ("uuid", "bytes", "timedelta", "ipv4", "ipv6")
    return False


def name_of(kind: Kind) -> str:
    return "-".join(name_of(k) if isinstance(k, tuple) else str(k) for k in kind if k not in ("app",)).replace(" ", "")


def mode_name(mode: Mode) -> str:
    parts = [mode.enum, mode.struct, mode.array, None if mode.foreign else "unconstrained", "auto" if mode.auto else None]
    return "/".join(p for p in parts if p)


def cases(thorough: bool) -> Iterator[tuple]:
    for d in D.DIALECTS:
        for kind in kinds():
            for mode in modes(d, kind, thorough):
                yield d, kind, mode
    for d in p14_text.DIALECTS:
        for kind in kinds():
            for mode in modes(d, kind, thorough):
                yield d, kind, mode


def explore(run: Run) -> None:
    D.install()
    items = [(churn, *item) for churn in (False, True) for item in cases(run.thorough)]
    run.bounds = {"kinds": len(kinds()), "kinds and modes": len(items), "create": "and synchronise" if run.thorough else "only"}
    parallel(run, work, items)


class Shape(Expected):
    "Expected structure without types of columns, and defaults, which are probed."

    def typ(self, kind: Kind) -> Any:
        return None

    def default(self, f: F) -> Any:
        return None


def shape(structure: dict) -> dict:
    for s in structure.values():
        for t in s["tables"].values():
            t["columns"] = sorted(((c[0], None, c[2], None, c[4], c[5]) for c in t["columns"]), key=repr)
        for st in s["structs"].values():
            st["members"] = sorted(((m[0], None, m[2]) for m in st["members"]), key=repr)
        s["enums"] = {k: [str(x) for x in v] for k, v in s["enums"].items()}
    return structure


def work(run: Run, item: tuple) -> None:
    churn, dialect, kind, mode = item
    if churn:
        # a program with many types; the interpreter remembers only some of the most recent ones
        for n in range(300):
            typing.Annotated[int, n]
    if dialect in p14_text.DIALECTS:
        p14_text.work(run, dialect, kind, mode, fields(kind, "postgresql"), ITEMS, closure(kind), lambda f: refusable("postgresql", mode, f), name_of)
        return
    for f in fields(kind, dialect):
        check(run, dialect, kind, mode, f)


def closure(kind: Kind) -> list:
    used: list = []

    def need(k: Kind) -> None:
        if k[0] in ("enum", "xenum", "struct", "ref"):
            i = ITEMS[k[1:3]]
            if isinstance(i, C):
                for g in i.fields:
                    need(g.kind)
            if i not in used:
                used.append(i)
        elif k[0] in ("list", "set"):
            need(k[1])
        elif k[0] == "union":
            for x in k[1]:
                need(x)

    need(kind)
    return used


def signature(dialect: str, kind: Kind, mode: Mode, f: F, what: str) -> str:
    if what == "automatic" or (what == "failed" and f.default is not None):
        return f"{dialect}/{kind[0]}{'-unlimited' if kind[0] == 'str' and (kind + (10**6,))[1] > 16383 else ''}/{what}"
    if what == "capacity":
        return f"{dialect}/{name_of(kind)}/{what}"
    role = (f.key or "plain") + ("-optional" if f.opt else "") + ("-default" if f.default is not None else "")
    return "/".join(x for x in (dialect, name_of(kind), mode_name(mode), role, what) if x)


class Wrong(Exception):
    def __init__(self, what: str, text: str) -> None:
        super().__init__(what, text)
        self.what = what
        self.text = text


def check(run: Run, dialect: str, kind: Kind, mode: Mode, f: F) -> None:
    if f.key in ("primary", "identity"):
        table = C("T", (f, F("n", ("int", 8))))
    else:
        table = W.table("T", f)
    version = (M("app", (*closure(kind), table)),)
    label = f"{dialect}/{name_of(kind)}" + (f"/{mode_name(mode)}" if mode_name(mode) else "")
    role = (f.key or "") + (" optional" if f.opt else "") + (" default" if f.default is not None else "")
    where = f"{label}{' as ' + role.strip() if role.strip() else ''}{f' {f.default!r:.80}' if f.default is not None else ''}"
    operations = ["create", "synchronise"] if run.thorough and f.default is None else ["create"]
    for op in operations:
        session = W.Session(dialect)
        try:
            try:
                if op == "create":
                    session.create(version, mode)
                else:
                    session.sync(version, mode)
            except Exception as e:
                if kind[0] == "timedelta" and dialect != "postgresql":
                    run.state((label, role, "no type"))  # the server refuses a type that it does not have
                    continue
                if session.changes(0):
                    raise Wrong("failed", f"{W.error_head(e)} {W.cause(e)!r:.300}") from None
                run.state((label, role, "refused"))
                if representable(dialect, mode) and not refusable(dialect, mode, f):
                    raise Wrong("refused", f"{W.error_head(e)} {W.cause(e)!r:.300}") from None
                continue
            if not representable(dialect, mode):
                raise Wrong("accepted", "a mode that the dialect does not have is accepted")
            run.trace()
            probe(run, session, version, mode, f, (label, role, f.default if f.default is not None else ""))
        except Wrong as e:
            run.violation(signature(dialect, kind, mode, f, e.what), f"{where}: {op}: {e.what}: {e.text}",
                          {"dialect": dialect, "field": type_text(kind), "role": role, "default": repr(f.default), "mode": repr(mode)})
    run.sample({"field": label, "role": role, "default": repr(f.default)})


def encode(kind: Kind, v: Any, typ: tuple, db: Any, lookup: Optional[dict]) -> Any:
    "A plain value as a program would pass it to the driver for a column of a type."

    if v is None:
        return None
    tag = kind[0]
    head = typ[0]
    if tag == "union":
        if kind[1][0][0] == "ref":
            kind = kind[1][0]
        elif isinstance(v, ipaddress.IPv4Address):
            kind = ("ipv4",)
        elif isinstance(v, ipaddress.IPv6Address):
            kind = ("ipv6",)
        else:
            kind = kind[1][-1]
        return encode(kind, v, typ, db, lookup)
    if tag == "ref":
        return encode(ITEMS[kind[1:3]].primary.kind, v, typ, db, lookup)
    if tag in ("enum", "xenum") and lookup is not None:
        return {x: n for n, x in lookup.items()}[str(v)]
    if head in T.BYTES:
        if isinstance(v, uuid.UUID):
            return v.bytes
        if isinstance(v, (ipaddress.IPv4Address, ipaddress.IPv6Address)):
            return v.packed
    if tag == "bool" and head == "int":
        return int(v)
    if tag == "enum" and head in ("enum", "menum", "text", "varchar", "char"):
        return str(v)
    if tag in ("datetime", "time") and v.tzinfo is not None:
        v = v.astimezone(V.UTC).replace(tzinfo=None) if tag == "datetime" else v.replace(tzinfo=None)
    if tag == "time" and head == "interval":
        return datetime.datetime.combine(datetime.date.min, v) - datetime.datetime.min
    if tag in ("list", "set", "struct") and head not in ("array", "struct"):
        return json.dumps(plain(kind, v))
    if tag == "struct":
        members = {m.name: m.typ for m in db.schemas[typ[1]].structs[typ[2]].members}
        return tuple(encode(g.kind, v[g.name], members[g.name], db, lookup) for g in ITEMS[kind[1:3]].fields)
    if tag in ("list", "set"):
        data = sorted(v, key=repr) if tag == "set" else v
        return [encode(kind[1], x, typ[1], db, lookup) for x in data]
    return v


def plain(kind: Kind, v: Any) -> Any:
    if v is None:
        return None
    tag = kind[0]
    if tag in ("list", "set"):
        return [plain(kind[1], x) for x in (sorted(v, key=repr) if tag == "set" else v)]
    if tag == "struct":
        return {g.name: plain(g.kind, v[g.name]) for g in ITEMS[kind[1:3]].fields}
    return v if isinstance(v, (int, float, bool, str)) else str(v)


def outside(kind: Kind) -> list[Any]:
    "Values that the constraints of a field exclude."

    if kind[0] == "range":
        return [kind[1] - 1, kind[2] + 1]
    if kind == ENUM:
        return ["c", "A", "a'"]
    if kind == INTS:
        return [2, 0]
    return []


def probe(run: Run, session: W.Session, version: tuple, mode: Mode, f: F, where: tuple) -> None:
    dialect = session.dialect
    db = session.server.db
    kind = f.kind
    expected = Shape(version, dialect, mode)
    try:
        have = session.structure()
    except (SqlError, LookupError) as e:
        raise Wrong("default", f"default is not a value of the column: {e}") from None
    wrong = difference(shape(have), shape(expected.structure()))
    if wrong:
        raise Wrong("structure", "; ".join(wrong)[:600])
    run.transition()
    run.state(repr(session.state())[:4000])
    schema, name = (DEFAULT_SCHEMA[dialect], "app__T") if dialect in FLAT else ("app", "T")
    t = db.schemas[schema].tables[name]
    if expected.is_link(f):
        link(run, session, expected, f, where)
        return
    table = next(i for m in version for i in m.items if i.name == "T")
    order = [c.name for c in t.cols]
    if order != [g.name for g in table.fields]:
        raise Wrong("order", f"columns are {order}")
    col = t.col("v")
    lookup = None
    targets = [con for con in t.cons.values() if con.kind == "f"]
    for con in targets:
        target = db.schemas[con.ref[0]].tables[con.ref[1]]
        if kind[0] in ("enum", "xenum"):
            labels = list(ITEMS[kind[1:3]].values) + (["other", "it's"] if kind[0] == "xenum" else [])
            for x in labels:
                if str(x) not in [r["value"] for r in target.rows]:
                    try:
                        target.rows.append(db.insert_row(target, {"value": str(x)}, "param"))
                        db.check_rows(target)
                    except SqlError as e:
                        raise Wrong("lookup", f"{x!r} is not a value of the lookup table: {e}") from None
            lookup = {r["id"]: r["value"] for r in target.rows}
    if kind[0] in ("list", "set") and kind[1][0] == "enum" and mode.enum_mode(dialect) == "relation" and col.typ[0] == "array":
        lookup = dict(enumerate(map(str, ITEMS[kind[1][1:3]].values), 1))  # keys of the lookup table, whichever they are

    base = db.copy()
    values = V.boundary(kind, dialect, ITEMS)
    if kind[0] == "str" and len(kind) > 1:
        values.append("y" * kind[1])
    if kind[0] in ("datetime",) and dialect == "mssql":
        values = [v for v in values if v.year > 1752]

    def attempt(*given: Any, raw: bool = False) -> Optional[list]:
        "Inserts rows with the given values; returns what is stored, or `None` if refused."

        db.restore(base)
        t = db.schemas[schema].tables[name]
        if kind[0] == "ref":
            con = next((c for c in t.cons.values() if c.kind == "f"), None)
            if con is not None and not raw:
                target = db.schemas[con.ref[0]].tables[con.ref[1]]
                for g in {repr(g): g for g in given if g is not None}.values():
                    key = encode(kind, g, target.col("id").typ, db, None)
                    target.rows.append(db.insert_row(target, {"id": key, "n": 0}, "param"))
        for i, g in enumerate(given):
            row: dict = {"n" if f.key in ("primary", "identity") else "id": i}
            if g is not SKIP:
                row["v"] = encode(kind, g, t.col("v").typ, db, lookup if not raw else None)
            t.rows.append(db.insert_row(t, row, "param"))
        db.check_rows(t)
        return [V.decode(kind, r["v"], ITEMS, dialect, lookup) for r in t.rows]

    def holds(*given: Any) -> Optional[str]:
        try:
            have = attempt(*given)
        except (SqlError, V.Undecodable) as e:
            return str(e)
        want = [V.canon(kind, g, ITEMS) for g in given]
        if kind[0] == "datetime" and len(kind) > 1:
            want = [w if w is None else w.replace(microsecond=w.microsecond // 10 ** (6 - kind[1]) * 10 ** (6 - kind[1])) for w in want]
        return None if have == want else f"{have!r:.200} is stored"

    # every value of the field can be stored
    if not (f.key == "identity" and dialect == "mssql"):
        for v in values:
            text = holds(v)
            if text is not None:
                raise Wrong("capacity", f"{v!r:.100} cannot be stored as {col.typ!r}: {text}")
            run.case((*where, "holds", repr(v)[:200]))
    # no other value
    for v in outside(kind):
        if kind[0] == "enum" and lookup is not None:
            v = 99
            raw = True
        else:
            raw = False
        try:
            attempt(v, raw=raw)
        except SqlError:
            run.case((*where, "excludes", repr(v)))
        else:
            if kind[0] != "enum" or mode.enum_mode(dialect) != "relation" or targets:
                raise Wrong("restriction", f"{v!r} can be stored")
    # optional
    if f.key != "identity":
        try:
            attempt(None)
        except SqlError as e:
            if f.opt:
                raise Wrong("nullable", f"no value cannot be stored: {e}") from None
        else:
            if not f.opt:
                raise Wrong("nullable", "no value can be stored")
    run.case((*where, "optional"))
    # keys
    if f.key is not None and not (f.key == "identity" and dialect == "mssql"):
        unique = sorted({repr(v): v for v in values if isinstance(v, bool) or v is not None}.items())
        data = list({V.canon(kind, v, ITEMS): v for _, v in unique}.values())
        if len(data) > 1:
            text = holds(*data[:2])
            if text is not None:
                raise Wrong("key", f"{data[:2]!r:.200} cannot be stored together: {text}")
        try:
            attempt(data[0], data[0])
        except SqlError:
            pass
        else:
            raise Wrong("key", f"{data[0]!r} can be stored twice")
        run.case((*where, "unique"))
    elif f.key is None and values:
        text = holds(values[0], values[0])
        if text is not None:
            raise Wrong("key", f"{values[0]!r:.100} cannot be stored twice: {text}")
        run.case((*where, "repeated"))
    # reference
    if kind[0] == "ref":
        try:
            attempt(values[0], raw=True)
        except SqlError as e:
            if not mode.foreign:
                raise Wrong("reference", f"{values[0]!r} cannot be stored without a record it refers to: {e}") from None
        else:
            if mode.foreign:
                raise Wrong("reference", f"{values[0]!r} can be stored without a record it refers to")
        run.case((*where, "reference"))
    # default, and generated values
    if f.key == "identity":
        try:
            have = attempt(SKIP, SKIP)
        except SqlError as e:
            raise Wrong("identity", f"no value is generated: {e}") from None
        if len(set(have)) != 2:
            raise Wrong("identity", f"generated values are {have!r}")
        run.case((*where, "generated"))
        return
    if f.default is not None:
        v = next(x for x in ITEMS[kind[1:3]].values if member_name(x) == f.default) if kind[0] == "enum" else f.default
        try:
            have = attempt(SKIP)
        except SqlError as e:
            raise Wrong("default", f"no default: {e}") from None
        want = V.canon(kind, v, ITEMS)
        if kind[0] == "datetime" and len(kind) > 1:
            want = want.replace(microsecond=want.microsecond // 10 ** (6 - kind[1]) * 10 ** (6 - kind[1]))
        if have != [want]:
            raise Wrong("default", f"default is {have[0]!r:.200}, not {want!r:.200}")
        run.case((*where, "default"))
    elif mode.auto and not f.opt and f.key != "primary" and inferable(kind, mode, dialect):
        try:
            have = attempt(SKIP)
        except SqlError as e:
            raise Wrong("automatic", f"no default: {e}") from None
        except V.Undecodable as e:
            raise Wrong("automatic", f"default is not a value of the field: {e}") from None
        run.case((*where, "automatic"))
    elif col.default is not None and not (mode.auto and not f.opt):
        raise Wrong("default", f"unexpected default {col.default[1]}")
    db.restore(base)


SKIP = object()


def inferable(kind: Kind, mode: Mode, dialect: str) -> bool:
    if kind[0] == "str" and dialect == "oracle":
        return False  # an empty string is no value
    if kind[0] == "union":
        return all(k[0] in ("int", "float") for k in kind[1])
    return kind[0] in ("int", "bool", "float", "str", "dec", "datetime", "date")


def link(run: Run, session: W.Session, expected: Expected, f: F, where: tuple) -> None:
    "Records of a link table."

    db = session.server.db
    dialect = session.dialect
    target = ITEMS[f.kind[1][1:3]]
    key = "id"
    schema, name = (DEFAULT_SCHEMA[dialect], f"app__T_v_{target.name}") if dialect in FLAT else ("app", f"T_v_{target.name}")
    t = db.schemas[schema].tables[name]
    kinds = {"uuid": ("uuid",), "T_v": ("int", 8), f"{target.name}_{key}": target.primary.kind if isinstance(target, C) else ("int", 4)}
    if [c.name for c in t.cols] != list(kinds):
        raise Wrong("link", f"columns are {[c.name for c in t.cols]}")
    for c in t.cols:
        for v in V.boundary(kinds[c.name], dialect, ITEMS):
            try:
                have = V.decode(kinds[c.name], T.assign(c.typ, encode(kinds[c.name], v, c.typ, db, None), db), ITEMS, dialect)
            except (SqlError, V.Undecodable) as e:
                raise Wrong("link", f"{v!r} cannot be stored in {c.name}: {e}") from None
            if have != V.canon(kinds[c.name], v, ITEMS):
                raise Wrong("link", f"{have!r} is stored in {c.name}, not {v!r}")
            run.case((*where, "link", c.name, repr(v)))
    # the members of a collection do not restrict those of the same collection of another record
    for con in t.cons.values():
        if con.kind == "u" and set(con.cols) == {t.cols[2].name}:
            run.violation("link/set-unique", f"an item cannot be in the sets of two records: {con.name} of {name}", {"field": repr(f), "dialect": dialect})
        elif con.kind == "u" and not {c.name for c in t.cols[1:]} <= set(con.cols):
            raise Wrong("link", f"{con.name} restricts {con.cols}")
