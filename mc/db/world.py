"Synchronisation histories on a model server: helpers shared by the checks, and the schema versions they explore."

import itertools
import re
from dataclasses import dataclass, field
from typing import Any, Callable, Iterable, Iterator, Optional

from pysqlsync.base import QueryException
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import FormationError

from . import drivers as D
from .model import Db, contents, freeze, structure
from .universe import C, E, Expected, F, M, Mode, Version, build, difference, normal, options

DDL = ("CREATE", "ALTER", "DROP", "COMMENT", "RENAME", "TRUNCATE")


def cause(e: BaseException) -> BaseException:
    while e.__cause__ is not None:
        e = e.__cause__
    return e


def statement_head(sql: str) -> str:
    "The kind of a statement, without names or values."

    text = re.sub(r"'(?:[^']|'')*'", "''", sql)
    text = re.sub(r'"(?:[^"]|"")*"|\[[^\]]*\]|`[^`]*`', "#", text)
    text = re.sub(r"\s+", " ", text).strip()
    words = re.findall(r"[A-Za-z]+", text)
    return "-".join(words[:2]).upper()


def error_head(e: BaseException) -> str:
    "The kind of an error, without names or values."

    e = cause(e)
    text = str(e.args[-1]) if e.args else ""
    text = re.sub(r"'(?:[^']|'')*'|\"[^\"]*\"", "", text)
    text = re.sub(r"[^A-Za-z]+", "-", text).strip("-")
    return text[:60]


class Session:
    "Runs operations of the library on a server, each with a new engine and connection as a new program would."

    def __init__(self, dialect: str, others: Optional[list[Db]] = None, reverse: bool = False) -> None:
        self.server = D.Server(dialect, others, reverse)
        self.dialect = dialect

    def run(self, version: Version, mode: Mode, action: Callable[[Any, dict], Any]) -> Any:
        "Runs `action(connection context, modules by namespace)`."

        modules = build(version)

        async def main() -> Any:
            async with D.connect(self.dialect, options(version, mode)) as ctx:
                return await action(ctx, modules)

        with D.using(self.server):
            return D.run(main())

    def sync(self, version: Version, mode: Mode) -> list[str]:
        "Synchronises the database with a version of the schema; returns the statements that change the database."

        mark = len(self.server.log)

        async def action(ctx: Any, modules: dict) -> None:
            explorer = get_dialect(self.dialect).create_explorer(ctx)
            await explorer.synchronize(modules=[modules[m.ns] for m in version])

        self.run(version, mode, action)
        return self.changes(mark)

    def create(self, version: Version, mode: Mode) -> list[str]:
        "Creates the objects of a version of the schema with the generator's script for all tables."

        mark = len(self.server.log)

        async def action(ctx: Any, modules: dict) -> None:
            generator = ctx.connection.generator
            stmt = generator.create(modules=[modules[m.ns] for m in version])
            if stmt:
                await ctx.execute(stmt)

        self.run(version, mode, action)
        return self.changes(mark)

    def changes(self, mark: int) -> list[str]:
        out = []
        for kind, detail in self.server.log[mark:]:
            if kind == "execute":
                out.append(detail)
            elif kind in ("many", "copy"):
                out.append(kind)
        return out

    def structure(self) -> dict[str, Any]:
        return normal(structure(self.server.db))

    def state(self, rows: bool = False) -> Any:
        "Canonical state of the database, with names of constraints and order of columns."

        s = freeze(structure(self.server.db, names=True, order=True))
        return (s, freeze(contents(self.server.db))) if rows else s


def compare(session: Session, version: Version, mode: Mode, before: Iterable[str] = ()) -> list[str]:
    """
    Differences between the database and the structure that the version requires.

    :param before: Schemas that existed before and may be left behind without objects.
    """

    expected = Expected(version, session.dialect, mode)
    want = expected.structure()
    have = session.structure()
    for name in list(have):
        if name not in want and name in before and not any(have[name].values()):
            del have[name]
    return difference(have, want)


# schema versions --------------------------------------------------------------------------


PK = F("id", ("int", 8), key="primary")


def table(name: str, *fields: F, doc: Optional[str] = None) -> C:
    ordered = [f for f in fields if f.default is None] + [f for f in fields if f.default is not None]
    return C(name, (PK,) + tuple(ordered), doc)


@dataclass
class Theme:
    """
    A set of versions of a schema between which a database moves.

    :param allowed: Decides if the change from one version to another is one that the library supports.
    """

    name: str
    versions: list[Version]
    mode: Mode = Mode()
    allowed: Callable[[Version, Version], bool] = lambda a, b: True
    modes: Optional[list[Mode]] = None  # mode of each version if it varies

    def mode_of(self, i: int) -> Mode:
        return self.modes[i] if self.modes is not None else self.mode


def get_fields(v: Version) -> dict[tuple, F]:
    return {(m.ns, i.name, f.name): f for m in v for i in m.items if isinstance(i, C) for f in i.fields}


WIDER = [
    [("int", 2), ("int", 4), ("int", 8)],
    [("str", 10), ("str", 20), ("str",)],
    [("float", 4), ("float", 8)],
]


def widens(a: tuple, b: tuple) -> bool:
    "True if the values of a type are values of the other type."

    if a == b or (a == ("int", 8) and b[0] == "ref") or (a[0] == "ref" and b == ("int", 8)):
        return True
    return any(a in chain and b in chain and chain.index(a) < chain.index(b) for chain in WIDER)


def allow_columns(a: Version, b: Version) -> bool:
    "A change of columns that every database accepts: types widen, and columns become required only where it can be."

    old, new = get_fields(a), get_fields(b)
    for k, f in new.items():
        if k in old and not widens(old[k].kind, f.kind):
            return False
    return True


def same_targets(a: Version, b: Version) -> bool:
    "The library refuses to make an existing reference point to another table."

    old, new = get_fields(a), get_fields(b)
    return not any(k in old and old[k].kind[0] == f.kind[0] == "ref" and old[k].kind != f.kind for k, f in new.items())


def keeps_values(a: Version, b: Version) -> bool:
    "The library refuses to remove values of an enumeration."

    old = {i.name: set(i.values) for m in a for i in m.items if isinstance(i, E)}
    new = {i.name: set(i.values) for m in b for i in m.items if isinstance(i, E)}
    return all(old[k] <= new[k] for k in old if k in new)


def columns_theme() -> Theme:
    "The type, nullability, default and comment of a column."

    variants = [
        F("a", ("int", 2)),
        F("a", ("int", 4), opt=True),
        F("a", ("int", 4), doc="Count."),
        F("a", ("int", 8), opt=True, doc="It's a \"count\"."),
        F("a", ("int", 8), default=5),
        F("a", ("int", 8), default=-6, doc="Count."),
        F("a", ("int", 8), opt=True, default=5),
        F("a", ("str", 10)),
        F("a", ("str", 10), opt=True, doc="Text."),
        F("a", ("str", 20), default="x"),
        F("a", ("str", 20), default="it's"),
        F("a", ("str",), opt=True),
        F("a", ("str",), doc="Other text."),
        F("a", ("bool",)),
        F("a", ("bool",), default=True),
        F("a", ("bool",), default=False),
        F("a", ("float", 4)),
        F("a", ("float", 8), opt=True),
        F("a", ("float", 8), default=1.5),
        F("a", ("uuid",)),
        F("a", ("uuid",), opt=True),
        F("a", ("date",)),
        F("a", ("date",), opt=True),
        F("a", ("datetime",)),
        F("a", ("datetime", 6), opt=True),
        F("a", ("dec", 10, 2)),
        F("a", ("dec", 10, 2), opt=True),
        F("a", ("bytes",)),
        F("a", ("bytes",), opt=True),
        F("a", ("time",)),
        F("a", ("ipv6",), opt=True),
    ]
    versions = [(M("app", (table("T", F("z", ("int", 8), opt=True)),)),)]
    for f in variants:
        versions.append((M("app", (table("T", f, F("z", ("int", 8), opt=True)),)),))
    return Theme("columns", versions, allowed=allow_columns)


def values_theme(dialect: str) -> Theme:
    "Default values and descriptions that differ little from each other."

    import datetime
    import decimal

    utc = datetime.timezone.utc
    kind = ("str", 20)
    strings = ["x", "X", " x", "x ", "'", "''", "NULL", "null", "TRUE", "5", "(5)", "x::text", "\\"]
    if dialect != "oracle":
        strings.append("")  # means NULL
    variants = [F("a", kind, default=v) for v in strings]
    variants += [F("a", kind), F("a", kind, opt=True), F("a", kind, opt=True, default="x")]
    variants += [F("a", kind, doc=text) for text in ("Count.", "count.", "Count", "It''s.", "It's.")]
    variants += [F("a", ("int", 4), default=v) for v in (None, 0, 1, -1, 10)]
    variants += [F("a", ("float", 8), default=v) for v in (None, 0.0, 1.0, 1.5, -1.5, 1e-7)]
    variants += [F("a", ("bool",), default=v) for v in (None, True, False)]
    variants += [F("a", ("dec", 10, 2), default=v) for v in (None, decimal.Decimal("1.50"), decimal.Decimal("-1.5"), decimal.Decimal("0"))]
    variants += [F("a", ("dec", 10, 0)), F("a", ("dec", 5, 5)), F("a", ("dec", 20, 1))]
    variants += [F("a", ("date",), default=v) for v in (None, datetime.date(2020, 1, 2), datetime.date(2020, 2, 1))]
    variants += [F("a", ("datetime",), default=v) for v in (
        None, datetime.datetime(2020, 1, 2, 0, 0, 0, tzinfo=utc), datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=utc))]
    variants += [F("a", ("datetime", 6), default=v) for v in (None, datetime.datetime(2020, 1, 2, 3, 4, 5, 678901, tzinfo=utc))]
    variants += [F("a", ("datetime", 3))]
    if dialect != "oracle":
        variants += [F("a", ("time",), default=v) for v in (datetime.time(0, 0, tzinfo=utc), datetime.time(3, 4, 5, tzinfo=utc))]
    return Theme("values", [(M("app", (table("T", f, F("z", ("int", 8), opt=True)),)),) for f in variants],
                 allowed=lambda a, b: get_fields(a)[("app", "T", "a")].kind == get_fields(b)[("app", "T", "a")].kind)


def presence_theme() -> Theme:
    "Presence of columns of differing types, with descriptions of the table."

    slots = [
        F("b", ("str",), opt=True),
        F("c", ("int", 4), doc="Number."),
        F("Select", ("bool",), default=True),
        F("order", ("datetime",), opt=True),
    ]
    versions = []
    for mask in range(16):
        fields = [f for i, f in enumerate(slots) if mask >> i & 1]
        doc = [None, "Table.", "Another 'table'.\nWith lines.", None][mask % 4]
        if doc is not None and "\n" in doc:
            doc = "Another 'table'."
        versions.append((M("app", (table("T", *fields, doc=doc),)),))
    return Theme("presence", versions)


def references_theme() -> Theme:
    "Tables that come and go, with references among them: chains, cycles and self references."

    def ref(name: str, opt: bool = True, field: Optional[str] = None) -> F:
        return F(field or name.lower(), ("ref", "app", name), opt=opt)

    v = [
        [table("A")],
        [table("A"), table("B")],
        [table("A"), table("B", ref("A"))],
        [table("A"), table("B", ref("A", False))],
        [table("A", ref("B")), table("B")],
        [table("A", ref("B")), table("B", ref("A"))],
        [table("A", ref("A"))],
        [table("A", ref("A", field="parent")), table("B", ref("A"), ref("A", field="other"))],
        [table("A"), table("B", ref("A")), table("C", ref("B"))],
        [table("A", ref("C")), table("B", ref("A")), table("C", ref("B"))],
        [table("B"), table("C", ref("B"))],
        [table("C")],
        [table("A"), table("C", ref("A", field="b"))],
        [table("B"), table("C", ref("B"), ref("B", field="c"))],
    ]
    return Theme("references", [(M("app", tuple(x)),) for x in v], allowed=same_targets)


def constraints_theme() -> Theme:
    "Unique constraints and references on a column that stays, appears or disappears."

    a = table("A")
    variants = [
        [],
        [F("k", ("int", 8))],
        [F("k", ("int", 8), key="unique")],
        [F("k", ("int", 8), opt=True)],
        [F("k", ("ref", "app", "A"), opt=True)],
        [F("k", ("ref", "app", "A"))],
        [F("k", ("int", 8)), F("l", ("ref", "app", "A"), opt=True)],
        [F("k", ("int", 8), key="unique"), F("l", ("str", 10), key="unique")],
    ]
    # a column does not change between text and a reference
    return Theme("constraints", [(M("app", (a, table("B", *v))),) for v in variants],
                 allowed=lambda a, b: same_targets(a, b) and allow_columns(a, b))


def enums_theme(dialect: str) -> Iterator[Theme]:
    "Enumerations: used by columns of several tables, extended by values, added and removed."

    e1, e2, e3 = E("E", ("a", "b")), E("E", ("a", "b", "c")), E("E", ("a", "b", "it's", "c"))
    g = E("G", ("x", "y"))
    fe = F("e", ("enum", "app", "E"))
    fo = F("e", ("enum", "app", "E"), opt=True)
    fg = F("g", ("enum", "app", "G"), opt=True)
    shapes = [
        [table("T")],
        [e1, table("T", fe)],
        [e1, table("T", fo)],
        [e2, table("T", fe)],
        [e3, table("T", fo)],
        [e1, table("T", fe), table("U", fo)],
        [e2, table("T", fe), table("U", fo)],
        [e1, g, table("T", fe, fg)],
        [g, table("T", fg)],
        [e1, g, table("T", fe), table("U", fg)],
    ]
    values = [{i.name: set(i.values) for i in s if isinstance(i, E)} for s in shapes]

    modes = {"postgresql": ["type", "relation"], "mysql": ["inline", "relation"], "mssql": ["relation"], "oracle": ["relation"]}[dialect]
    for mode in modes:
        # a lookup table that already exists is not extended when the schema changes
        yield Theme(f"enums-{mode}", [(M("app", tuple(s)),) for s in shapes], mode=Mode(enum=mode), allowed=keeps_values)


def structs_theme() -> Theme:
    "Composite types: members added and removed, nesting, use by several tables."

    s1 = C("S", (F("x", ("int", 8)), F("y", ("str",), opt=True)), "Struct.")
    s2 = C("S", (F("x", ("int", 8)), F("y", ("str",), opt=True), F("w", ("float", 8))), "Struct.")
    s3 = C("S", (F("x", ("int", 8)),), "It's a struct.")
    s4 = C("S", (F("x", ("int", 8), doc="It's x."), F("y", ("str",), opt=True), F("w", ("float", 8), doc="Added.")), "Struct.")
    s5 = C("S", (F("x", ("int", 8), doc="Other text."), F("y", ("str",), opt=True, doc="Y.")), "Struct.")
    p = C("P", (F("s", ("struct", "app", "S")), F("n", ("int", 4))))
    fs = F("s", ("struct", "app", "S"), opt=True)
    fp = F("p", ("struct", "app", "P"), opt=True)
    shapes = [
        [table("T")],
        [s1, table("T", fs)],
        [s2, table("T", fs)],
        [s3, table("T", fs)],
        [s4, table("T", fs)],
        [s5, table("T", fs)],
        [s1, p, table("T", fp)],
        [s2, p, table("T", fs, fp)],
        [s1, table("T", fs), table("U", fs)],
        [s1, p, table("T"), table("U", fp)],
        [s1, table("T", F("l", ("list", ("struct", "app", "S")), opt=True))],
    ]
    return Theme("structs", [(M("app", tuple(s)),) for s in shapes])


def links_theme() -> Theme:
    "Lists and sets of entities, which are stored in link tables."

    shapes = [
        [table("A"), table("B")],
        [table("A"), table("B", F("items", ("list", ("ref", "app", "A"))))],
        [table("A"), table("B", F("items", ("set", ("ref", "app", "A"))))],
        [table("A", F("others", ("list", ("ref", "app", "A")))), table("B")],
        [table("A", F("bs", ("list", ("ref", "app", "B")))), table("B", F("items", ("list", ("ref", "app", "A"))))],
        [table("A"), table("B", F("items", ("list", ("ref", "app", "A"))), F("more", ("list", ("ref", "app", "A"))))],
        [table("A")],
    ]
    return Theme("links", [(M("app", tuple(s)),) for s in shapes])


def namespaces_theme() -> Theme:
    "Several namespaces with references between them; equal names of tables; namespaces without tables."

    def v(one: list, two: list) -> Version:
        return (M("one", tuple(one)), M("two", tuple(two)))

    to2 = F("t", ("ref", "two", "B"), opt=True)
    to1 = F("o", ("ref", "one", "A"), opt=True)
    return Theme("namespaces", [
        v([table("A")], [table("B")]),
        v([table("A", to2)], [table("B")]),
        v([table("A")], [table("B", to1)]),
        v([table("A", to2)], [table("B", to1)]),
        v([table("A")], []),
        v([], [table("B")]),
        v([table("A"), table("X")], [table("B"), table("Y", F("x", ("ref", "one", "X"), opt=True))]),
        v([table("A", F("b", ("str",), opt=True))], [table("B"), table("D", to1)]),
    ])


def combined_theme(bits: int) -> Theme:
    "Combinations of independent changes to two tables in one step."

    versions = []
    for mask in range(1 << bits):
        def on(i: int) -> bool:
            return bool(mask >> i & 1)

        e = E("E", ("a", "b", "c") if on(5) else ("a", "b"))
        fields = [F("e", ("enum", "app", "E"), opt=True)]
        if on(0):
            fields.append(F("n", ("int", 8), doc="Number."))
        else:
            fields.append(F("n", ("int", 8), opt=True))
        if on(1):
            fields.append(F("r", ("ref", "app", "A"), opt=True))
        if on(2):
            fields.append(F("d", ("str",), opt=True, doc="Text."))
        fields.append(F("u", ("str", 10), key="unique" if on(3) else None))
        items: list = [e, table("A"), table("B", *fields, doc="B." if on(4) else None)]
        if on(6):
            items.append(table("C", F("b", ("ref", "app", "B"))))
        versions.append((M("app", tuple(items)),))

    return Theme("combined", versions, allowed=keeps_values)


def default_theme() -> Theme:
    "Tables of the schema that is current, which has no name in the program."

    e1, e2 = E("E", ("a", "b")), E("E", ("a", "b", "c"))
    fe = F("e", ("enum", None, "E"), opt=True)
    ra = F("a", ("ref", None, "A"), opt=True)
    s = C("S", (F("x", ("int", 8)),))
    shapes = [
        [table("A")],
        [table("A", F("n", ("int", 4))), table("B", ra)],
        [e1, table("A", fe), table("B", ra)],
        [e2, table("A", fe)],
        [table("A", doc="Table."), table("B", ra, F("k", ("int", 4), key="unique"))],
        [s, table("A", F("s", ("struct", None, "S"), opt=True))],
        [table("A", ra, F("l", ("list", ("ref", None, "B")))), table("B")],
        [e1, table("B", fe)],
    ]

    return Theme("default", [(M(None, tuple(x)),) for x in shapes], allowed=keeps_values)


def mixed_theme(dialect: str) -> Theme:
    "Types and roles that the other themes do not have."

    e = E("E", ("a", "b"))
    x = E("X", ("a",))
    variants: list[list] = [
        [table("T")],
        [table("T", F("r", ("range", 1, 10)))],
        [table("T", F("l", ("literal", ("x", "yy"))))],
        [C("T", (F("id", ("int", 8), key="identity"), F("n", ("int", 4))))],
        [C("T", (F("id", ("str", 10), key="primary"), F("n", ("int", 4))))],
        [x, table("T", F("x", ("xenum", "app", "X")))],
        [x, table("T", F("x", ("xenum", "app", "X"), opt=True), F("y", ("xenum", "app", "X"), opt=True))],
        [e, table("T", F("e", ("enum", "app", "E"), default="M_a" if dialect in ("postgresql", "mysql") else None))],
        [E("E", ("a",)), table("T", F("x", ("enum", "app", "E")))],
        [table("T", F("li", ("list", ("int", 8))))],
        [table("T", F("li", ("list", ("str",)), opt=True), F("ls", ("list", ("str",))))],
        [table("T", F("ip", ("ipv4",)), F("iq", ("ipv6",), opt=True))],
        [table("T", F("t", ("time",)))],
        [table("T", F("u", ("uuid",), key="unique"), F("v", ("date",), key="unique"))],
        [table("T", F("u", ("uuid",), opt=True), F("v", ("date",)))],
        [C("T", (F("id", ("uuid",), key="primary"),)), table("U", F("t", ("ref", "app", "T")))],
        [C("T", (F("id", ("str", 10), key="primary"),)), table("U", F("t", ("ref", "app", "T"), opt=True))],
        [C("T", (F("id", ("int", 4), key="identity"),)), table("U", F("t", ("ref", "app", "T"), opt=True))],
    ]

    def allowed(a: Version, b: Version) -> bool:
        if not keeps_values(a, b) or any(f.kind[0] == "range" for f in get_fields(a).values()):
            return False

        def keys(v: Version) -> dict:
            return {(m.ns, i.name): (i.primary.name, i.primary.kind, i.primary.key) for m in v for i in m.items if isinstance(i, C)}

        old, new = keys(a), keys(b)
        return all(old[k] == new[k] for k in old if k in new) and allow_columns(a, b)

    return Theme("mixed", [(M("app", tuple(x)),) for x in variants], allowed=allowed)


def arrays_theme(dialect: str) -> Iterator[Theme]:
    "Lists of values and of enumeration values in each array mode."

    e = E("E", ("a", "b"))
    shapes: list[list] = [
        [table("T")],
        [table("T", F("n", ("list", ("int", 8))))],
        [table("T", F("n", ("list", ("int", 8)), opt=True), F("s", ("list", ("str",))))],
        [e, table("T", F("e", ("list", ("enum", "app", "E"))))],
        [e, table("T", F("e", ("list", ("enum", "app", "E"))), F("f", ("enum", "app", "E"), opt=True))],
        [table("A"), table("T", F("e", ("list", ("ref", "app", "A"))))],
    ]
    for mode in ["json", "array"] if dialect == "postgresql" else ["json"]:
        yield Theme(f"arrays-{mode}", [(M("app", tuple(s)),) for s in shapes], mode=Mode(array=mode))


def checks_theme() -> Theme:
    "Constraints on values."

    e1, e2 = E("E", ("a", "b")), E("E", ("a", "b", "it's"))
    shapes: list[list] = [
        [table("T")],
        [e1, table("T", F("e", ("enum", "app", "E")))],
        [e1, table("T", F("e", ("enum", "app", "E"), opt=True), F("f", ("enum", "app", "E")))],
        [e2, table("T", F("e", ("enum", "app", "E")))],
        [table("T", F("r", ("range", 1, 10)))],
        [table("T", F("r", ("range", 1, 20)), F("s", ("range", -5, 5), opt=True))],
        [table("T", F("r", ("int", 8)))],
    ]
    versions = [(M("app", tuple(s)),) for s in shapes]

    def allowed(a: Version, b: Version) -> bool:
        # changes from a version that has such constraints fail one way or another as they are not discovered;
        # some of these changes are explored (and recorded as findings)
        i, j = versions.index(a), versions.index(b)
        return i in (0, 6) or (i, j) in ((1, 0), (1, 3), (4, 0), (4, 5))

    return Theme("checks", versions, mode=Mode(enum="check"), allowed=allowed)


def unconstrained_theme() -> Theme:
    "The option that leaves out reference constraints."

    r = F("r", ("ref", "app", "A"))
    shapes: list[list] = [
        [table("A")],
        [table("A"), table("B", r)],
        [table("A"), table("B", F("r", ("ref", "app", "A"), opt=True))],
        [table("A", F("b", ("ref", "app", "B"))), table("B", r)],
        [table("B", F("k", ("int", 8), key="unique"))],
        [table("A"), table("B", F("k", ("int", 8)))],
    ]
    versions = [(M("app", tuple(s)),) for s in shapes]
    # each version with and without constraints
    return Theme("unconstrained", versions + versions, modes=[Mode(foreign=False)] * len(versions) + [Mode()] * len(versions))


def keys_theme(dialect: str) -> Theme:
    "Primary keys that change."

    c = F("c", ("str", 10))
    ident = F("id", ("int", 8))
    shapes: list[list] = [
        [C("T", (PK, c))],
        [C("T", (F("c", ("str", 10), key="primary"), ident))],
        [C("T", (F("id", ("int", 8), key="identity"), c))],
        [C("T", (F("id", ("int", 4), key="primary"), c))],
        [C("T", (F("k", ("int", 8), key="primary"), c))],
    ]
    versions = [(M("app", tuple(s)),) for s in shapes]

    def allowed(a: Version, b: Version) -> bool:
        # changes to the columns of the key are ignored; some of these changes are explored (and recorded as findings)
        i, j = versions.index(a), versions.index(b)
        if dialect == "mssql" and 2 in (i, j):
            return False  # refused: SQL Server cannot turn a column into an identity column
        return {i, j} <= {0, 2, 3} or (i, j) in ((0, 1), (0, 4))

    return Theme("keys", versions, allowed=allowed)


def themes(dialect: str, thorough: bool = False) -> list[Theme]:
    out = [columns_theme(), presence_theme(), references_theme(), constraints_theme()]
    out.extend(enums_theme(dialect))
    out.append(structs_theme())
    out.append(links_theme())
    out.append(namespaces_theme())
    out.append(default_theme())
    out.append(mixed_theme(dialect))
    out.extend(arrays_theme(dialect))
    out.append(checks_theme())
    out.append(unconstrained_theme())
    out.append(values_theme(dialect))
    out.append(combined_theme(7 if thorough else 5))
    return out


def structure_themes(dialect: str, thorough: bool = False) -> list[Theme]:
    "Themes for checks that do not have rows."

    return themes(dialect, thorough) + [keys_theme(dialect)]
