"""
P09: names and literal values survive quoting.

Strings over an alphabet of characters with a lexical role are put in each position where a name or a value of a schema appears.

1. The real library creates, discovers, fills, changes and drops such schemas on a model of each database server, whose lexer is
   written from the rules of the database. What the server has then must have exactly those names and values.
2. The scripts and statements that the real generator of every dialect writes are split into tokens; they must be the tokens of
   the statements for a plain word, with the word replaced by the string.
3. Tables with similar names are put on the server; what the library finds and drops for a namespace must be those with its prefix.
"""

import dataclasses
import itertools
from collections import Counter
from typing import Any, Callable, Iterator, Optional

from pysqlsync.base import ClassRef
from aiomysql.cursors import RE_INSERT_VALUES
from pysqlsync.factory import get_dialect
from pysqlsync.model.id_types import LocalId

from ..core import Run, parallel
from ..db import drivers as D
from ..db import world as W
from ..db.lexer import tokenize
from ..db.model import Exec
from ..db.universe import FLAT, C, E, Expected, F, M, Mode, Version, build, ident, member_name, options

LEVEL = "model_checking"
RULE = (
    "dialect x position of a name or value x string over the alphabet, each with creation, second synchronisation, data, two "
    "changes and removal; statements of all dialects: position x string; patterns: prefix x neighbouring names; non-trivial = a "
    "distinct (dialect, position, string)"
)
ASSUMPTIONS = [
    "lexical rules are those of the documentation of each database with its default settings (MySQL with ANSI_QUOTES, which the library sets)",
    "names that no database can have are not used: empty names, NUL, a double quote on Oracle, a space at the end of a name on MySQL",
    "names with $ are not used on Oracle, where the library leaves such tables, which belong to the system, alone",
    "Snowflake, Delta and Redshift read a backslash in a string literal as an escape character; names in double quotes are identifiers in all dialects",
]

CORE = ("'", '"', "\\", "\n", ";", "%", "_", "~", "a")
MORE = ("-", "/", "*", ".", " ", "$", "`", "[", "]", "é", "?", ":", "{", "}", "@", "#", "0", ",", "(", ")", "A", "\t", "|", "&", "=", "^")
WORDS = ("--", "/*", "*/", "$$", "%s", ":1", "$1", "?", "{0}", "END;", ";\n", "a;\nb", "a__b", "__", "BEGIN", "\\'", "\\\\'", "''", '""', "a'b\"c",
         "select", "NULL", "DEFAULT", "x y", "a.b", "[a]", "E'", "N'", "日本", "a\\", "%%", "~~", "&x", "\r\n", "/\n", "\n/\n", "a';--")


def strings(thorough: bool, dialect: str) -> list[str]:
    out = [*CORE, *MORE, *WORDS]
    out += ["".join(p) for p in itertools.product(CORE, repeat=2)]
    if thorough:
        out += ["".join(p) for p in itertools.product(CORE + MORE, repeat=2)]
        out += ["".join(p) for p in itertools.product(CORE[:5] + ("a", "%"), repeat=3)]
    return sorted(dict.fromkeys(out), key=lambda s: (len(s), s))


def namable(dialect: str, s: str) -> bool:
    if dialect == "oracle" and '"' in s:
        return False
    return not (dialect == "mysql" and s.endswith((" ", "\t", "\n", "\r")))


Q = W.table("Q", F("n", ("str", 20), opt=True))


class Position:
    """
    Where a string appears.

    :param versions: Versions of the schema to pass through.
    :param rows: Field values of rows of tables, for each table (in order of creation).
    """

    def __init__(self, name: str, make: Callable[[str], list[Version]], *, mode: Mode = Mode(), named: bool = True,
                 dialects: tuple[str, ...] = tuple(D.DIALECTS), rows: Optional[Callable[[str], dict]] = None) -> None:
        self.name, self.make, self.mode, self.named, self.dialects, self.rows = name, make, mode, named, dialects, rows

    @property
    def checks(self) -> bool:
        "True if there are check constraints, which the library does not discover (P02): only what is created is looked at."

        return self.mode.enum == "check" or self.name == "range"


def ref(name: str) -> tuple:
    return ("ref", "app", name)


def app(*items: Any) -> Version:
    return (M("app", tuple(items)),)


def positions() -> Iterator[Position]:
    T = W.table

    def namespace(s: str) -> list[Version]:
        e = E("E", ("p", "q"))
        k = ("enum", s, "E")
        x = C("S", (F("x", ("int", 8)),))
        one = (T("T", F("v", ("str", 20)), F("r", ("ref", s, "Q"), opt=True), F("e", k, opt=True), F("x", ("struct", s, "S"), opt=True)))
        two = T("T", F("v", ("str", 20)), F("e", k, opt=True), F("w", ("int", 4), opt=True))
        return [(M(s, (Q, e, x, one)),), (M(s, (Q, E("E", ("p", "q", "r")), two)),), (M(s, (Q,)),)]

    yield Position("namespace", namespace, rows=lambda s: {"Q": [(1, s), (2, None)]})
    yield Position("table", lambda s: [app(Q, T(s, F("v", ("str", 20)), F("r", ref("Q"), opt=True), F("u", ("str", 20), opt=True, key="unique"))),
                                       app(Q, T(s, F("v", ("str", 40)), F("w", ("int", 4), opt=True))), app(Q)],
                   rows=lambda s: {s: [(1, "one", None, s), (2, s, None, None)]})
    yield Position("referenced", lambda s: [app(T(s, F("v", ("str", 20))), T("T", F("r", ref(s), opt=True))),
                                            app(T(s, F("v", ("str", 20))), T("T", F("w", ref(s), opt=True)), T("U", F("r", ref(s), opt=True))),
                                            app(T("T", F("v", ("str", 20), opt=True)))],
                   rows=lambda s: {s: [(1, "one")], "T": [(1, 1), (2, None)]})

    def key(s: str) -> list[Version]:
        k = C("K", (F(s, ("int", 8), key="primary"), F("v", ("str", 20), opt=True)))
        return [app(k, T("T", F("r", ref("K"), opt=True))), app(C("K", (F(s, ("int", 8), key="primary"), F("w", ("int", 8), opt=True)))), app(k)]

    yield Position("key", key, rows=lambda s: {"K": [(1, "one"), (2, s)], "T": [(1, 1)]})
    yield Position("column", lambda s: [app(T("T", F(s, ("str", 20), opt=True))), app(T("T", F(s, ("str", 40)))), app(T("T", F("v", ("int", 4), opt=True))),
                                        app(T("T", F(s, ("int", 4), opt=True), F("v", ("int", 4), opt=True)))],
                   rows=lambda s: {"T": [(1, "one"), (2, s)]})
    yield Position("reference", lambda s: [app(Q, T("T", F(s, ref("Q"), opt=True))), app(Q, T("T", F("v", ("int", 4), opt=True))),
                                           app(Q, T("T", F("v", ("int", 4), opt=True), F(s, ref("Q"), opt=True)))],
                   rows=lambda s: {"Q": [(1, "one")], "T": [(1, 1), (2, None)]})
    yield Position("unique", lambda s: [app(T("T", F(s, ("int", 4), key="unique"))), app(T("T", F(s, ("int", 4)))),
                                        app(T("T", F(s, ("int", 4), key="unique")))], rows=lambda s: {"T": [(1, 1), (2, 3)]})
    yield Position("range", lambda s: [app(T("T", F(s, ("range", -5, 5)))), app(T("T", F("v", ("int", 4), opt=True)))], rows=lambda s: {"T": [(1, 1), (2, 3)]})
    yield Position("default column", lambda s: [app(T("T", F(s, ("int", 4), default=7))), app(T("T", F(s, ("int", 4), default=8))),
                                                app(T("T", F(s, ("int", 4)))), app(T("T"))], rows=lambda s: {"T": [(1, 1), (2, 3)]})

    for mode in ("type", "relation", "check"):
        def enums(s: str) -> list[Version]:
            return [app(E(s, ("p", "q")), T("T", F("e", ("enum", "app", s)))), app(E(s, ("p", "q", "r")), T("T", F("e", ("enum", "app", s)))),
                    app(E(s, ("p", "q")), T("T", F("v", ("int", 4), opt=True)))]

        def labels(s: str) -> list[Version]:
            return [app(E("E", ("p", s)), T("T", F("e", ("enum", "app", "E")))), app(E("E", ("p", s, "x" + s + "y")), T("T", F("e", ("enum", "app", "E")))),
                    app(E("E", ("p", s, "x" + s + "y", "y" + s)), T("T", F("e", ("enum", "app", "E")), F("v", ("int", 4), opt=True)))]

        dialects = ("postgresql",) if mode == "type" else tuple(D.DIALECTS)
        rows = {"T": [(1, "p"), (2, "q")]}
        yield Position(f"enumeration ({mode})", enums, mode=Mode(enum=mode), dialects=dialects, rows=lambda s: rows)
        yield Position(f"label ({mode})", labels, mode=Mode(enum=mode, initialize=mode == "relation"), dialects=dialects, named=False,
                       rows=lambda s: {"T": [(1, "p"), (2, s)]})
        if mode != "relation":
            yield Position(f"default label ({mode})", lambda s: [app(E("E", ("p", s)), T("T", F("e", ("enum", "app", "E"), default=member_name(s)))),
                                                                 app(E("E", ("p", s)), T("T", F("e", ("enum", "app", "E"))))],
                           mode=Mode(enum=mode), dialects=dialects, named=False)
        if mode == "type":
            yield Position("label (inline)", labels, mode=Mode(enum="inline"), dialects=("mysql",), named=False, rows=lambda s: {"T": [(1, "p"), (2, s)]})
            yield Position("default label (inline)", lambda s: [app(E("E", ("p", s)), T("T", F("e", ("enum", "app", "E"), default=member_name(s)))),
                                                                app(E("E", ("p", s)), T("T", F("e", ("enum", "app", "E"))))],
                           mode=Mode(enum="inline"), dialects=("mysql",), named=False)
    yield Position("extensible label", lambda s: [app(E("X", (s,)), T("T", F("e", ("xenum", "app", "X")))),
                                                  app(E("X", (s,)), T("T", F("e", ("xenum", "app", "X")), F("v", ("int", 4), opt=True)))],
                   named=False, rows=lambda s: {"T": [(1, "p"), (2, s)]})
    yield Position("extensible enumeration", lambda s: [app(E(s, ("p",)), T("T", F("e", ("xenum", "app", s)))),
                                                        app(E(s, ("p",)), T("T", F("e", ("xenum", "app", s)), F("v", ("int", 4), opt=True)))],
                   rows=lambda s: {"T": [(1, "p"), (2, s)]})
    yield Position("enumeration column", lambda s: [app(E("E", ("p", "q")), T("T", F(s, ("enum", "app", "E")))),
                                                    app(E("E", ("p", "q", "r")), T("T", F(s, ("enum", "app", "E")))),
                                                    app(T("T", F("v", ("int", 4), opt=True)))], rows=lambda s: {"T": [(1, "p"), (2, "q")]})
    yield Position("enumeration column (check)", lambda s: [app(E("E", ("p", "q")), T("T", F(s, ("enum", "app", "E")))),
                                                            app(T("T", F("v", ("int", 4), opt=True)))], mode=Mode(enum="check"))
    yield Position("string to lookup", lambda s: [app(E("E", ("p", s)), T("T", F("e", ("str", 64)))), app(E("E", ("p", s)), T("T", F("e", ("enum", "app", "E"))))],
                   mode=Mode(enum="relation", initialize=True), dialects=("postgresql", "mysql"), named=False, rows=lambda s: {"T": [(1, "p"), (2, s)]})
    yield Position("column to lookup", lambda s: [app(E("E", ("p", "q")), T("T", F(s, ("str", 64)))), app(E("E", ("p", "q")), T("T", F(s, ("enum", "app", "E"))))],
                   mode=Mode(enum="relation", initialize=True), dialects=("postgresql", "mysql"), rows=lambda s: {"T": [(1, "p"), (2, "q")]})
    yield Position("struct", lambda s: [app(C(s, (F("x", ("int", 8)),)), T("T", F("v", ("struct", "app", s)))),
                                        app(C(s, (F("x", ("int", 8)), F("y", ("str",)))), T("T", F("v", ("struct", "app", s)))), app(T("T"))],
                   dialects=("postgresql",))
    yield Position("member", lambda s: [app(C("S", (F(s, ("int", 8)),)), T("T", F("v", ("struct", "app", "S")))),
                                        app(C("S", (F("x", ("int", 8)), F(s, ("int", 8)))), T("T", F("v", ("struct", "app", "S")))),
                                        app(C("S", (F("x", ("int", 8)),)), T("T", F("v", ("struct", "app", "S"))))],
                   dialects=("postgresql",))
    link = Mode(array="relation")
    yield Position("link field", lambda s: [app(Q, T("T", F(s, ("list", ref("Q"))))), app(Q, T("T", F("l", ("list", ref("Q"))))), app(Q)], mode=link)
    yield Position("link table", lambda s: [app(Q, T(s, F("l", ("set", ref("Q"))))), app(Q, T("T", F("l", ("list", ref("Q"))))), app(Q)], mode=link)
    yield Position("link item", lambda s: [app(T(s), T("T", F("l", ("list", ref(s))))), app(Q, T("T", F("k", ("list", ref("Q"))))), app(Q)], mode=link)
    yield Position("default", lambda s: [app(T("T", F("v", ("str", 40), default=s))), app(T("T", F("v", ("str", 40), default="x" + s + "y"))),
                                         app(T("T", F("v", ("str", 40)))), app(T("T", F("v", ("str", 40), opt=True, default=s)))],
                   named=False, rows=lambda s: {"T": [(1, "one"), (2, s)]})
    yield Position("literal", lambda s: [app(T("T", F("v", ("literal", (s, "zzzzzzzz")))))], named=False, rows=lambda s: {"T": [(1, "zzzzzzzz"), (2, s)]})
    yield Position("comment", lambda s: [app(T("T", F("v", ("str", 40), doc="x" + s + "y"), doc="X" + s + "Y")), app(T("T", F("v", ("str", 40)))),
                                         app(T("T", F("v", ("str", 40), doc="x" + s + "z"), doc="X" + s + "Z")),
                                         app(T("T", F("v", ("str", 40), doc="z" + s + s + "z"), doc="Z" + s + s + "Z"))],
                   dialects=("postgresql", "mysql"), named=False)


ALL = {p.name: p for p in positions()}


EVERY = (*D.DIALECTS, "redshift", "snowflake", "delta", "trino")


def explore(run: Run) -> None:
    D.install()
    items = [("model", d, p.name) for p in ALL.values() for d in p.dialects]
    items += [("text", d, p.name) for p in ALL.values() if p.name != "comment" for d in EVERY]
    items += [("unscoped", d, p.name) for p in ALL.values() if p.name not in ("comment", "namespace") for d in EVERY]
    items += [("comment", d, k) for d in EVERY for k in COMMENTED]
    items += [("prefix", d, "") for d in FLAT]
    run.bounds = {"positions": len(ALL), "dialects and positions": len(items), "strings": len(strings(run.thorough, "postgresql"))}
    parallel(run, work, items)


def work(run: Run, item: tuple) -> None:
    part, dialect, name = item
    {"model": on_model, "text": as_text, "unscoped": unscoped_text, "comment": comments, "prefix": prefixes}[part](run, dialect, name)


class Failures:
    "Reports a failure unless the string contains one that fails in the same way."

    def __init__(self, run: Run, dialect: str, name: str) -> None:
        self.run, self.dialect, self.name = run, dialect, name
        self.seen: list[tuple[str, str]] = []

    def add(self, s: str, step: str, head: str, text: str) -> None:
        if any(k == step + head and t in s for k, t in self.seen):
            return
        self.seen.append((step + head, s))
        shown = s.encode("unicode_escape").decode().replace(" ", "<sp>")
        self.run.violation(f"{self.dialect}/{self.name.replace(' ', '-')}/{step}/{head}/{shown}", f"{self.dialect}, {self.name} {s!r}: {step}: {text}",
                           {"dialect": self.dialect, "position": self.name, "string": s})


# on the model of the server ----------------------------------------------------------------------


def on_model(run: Run, dialect: str, name: str) -> None:
    p = ALL[name]
    failures = Failures(run, dialect, name)
    for s in strings(run.thorough, dialect):
        if p.named and not namable(dialect, s):
            continue
        if p.name == "comment" and any(c in s for c in "\n\r\t :"):
            continue  # lines and spaces of a documentation string have a meaning
        if dialect == "oracle" and "$" in s and p.named:
            continue
        if dialect == "mysql" and "label" in p.name and s != s.rstrip(" "):
            continue  # spaces at the end of values are not significant
        if p.name == "literal" and dialect in ("mssql", "oracle") and not s.isascii():
            continue  # char(n) is too short for the value (P14)
        if p.name in ("table", "referenced", "link table", "link item", "struct") and s in ("T", "Q"):
            continue
        run.state((dialect, name, s))
        run.case((dialect, name, s))
        out = scenario(run, dialect, p, s)
        if out is None:
            continue
        step, head, text = out
        failures.add(s, *out)


def scenario(run: Run, dialect: str, p: Position, s: str) -> Optional[tuple[str, str, str]]:
    "Passes through the versions; returns the step that fails, kind of failure, and description."

    session = W.Session(dialect)
    versions = p.make(s)
    if p.checks:
        versions = versions[:1]
    step = "create"
    try:
        for n, version in enumerate(versions):
            step = f"change-{n}" if n else "create"
            before = list(session.structure())
            session.sync(version, p.mode)
            run.transition()
            diff = W.compare(session, version, p.mode, before)
            if diff:
                return step, "structure", "; ".join(diff)[:600]
            step += "-again"
            if not p.checks:
                again = session.sync(version, p.mode)
                run.transition()
                if again:
                    return step, "changes", repr(again)[:600]
            if n == 0 and p.rows is not None:
                step = "data"
                text = data(run, session, version, p.mode, p.rows(s), not p.checks)
                if text:
                    return step, "rows", text
        step = "recreate"
        other = W.Session(dialect)
        other.create(versions[0], p.mode)
        run.transition()
        diff = W.compare(other, versions[0], p.mode)
        if diff:
            return step, "structure", "; ".join(diff)[:600]
        step = "drop"
        drop(other, versions[0], p.mode)
        run.transition()
        left = {k for k, v in other.structure().items() if any(v.values())}
        if left:
            return step, "left", f"left behind: {left}"
        run.trace()
    except Exception as e:
        return step, W.error_head(e), repr(W.cause(e))[:600] + " in " + repr(session.server.log[-1:])[:300]
    return None


def drop(session: W.Session, version: Version, mode: Mode) -> None:
    async def action(ctx: Any, modules: dict) -> None:
        await ctx.drop_schema(LocalId(version[0].ns))

    session.run(version, mode, action)


def data(run: Run, session: W.Session, version: Version, mode: Mode, rows: dict, discover: bool) -> Optional[str]:
    "Inserts, replaces and deletes rows; returns what is wrong."

    items = {i.name: i for i in version[0].items}
    enums = {i.name: i for i in version[0].items if isinstance(i, E)}

    async def action(ctx: Any, modules: dict) -> Any:
        module = modules[version[0].ns]
        explorer = get_dialect(session.dialect).create_explorer(ctx)
        if discover:
            await explorer.synchronize(module=module)
        else:
            ctx.connection.generator.state = ctx.connection.generator.converter.modules_to_catalog([module])

        def objects(name: str) -> list:
            cls = module.__dict__[ident(name)]
            out = []
            for values in rows[name]:
                o = object.__new__(cls)
                for f, v in zip(items[name].fields, values):
                    if v is not None and f.kind[0] in ("enum", "xenum"):
                        v = next((m for m in module.__dict__[ident(f.kind[2])] if m.value == v), v)
                    setattr(o, f.name, v)
                out.append(o)
            return out

        for name in rows:
            await ctx.insert_data(module.__dict__[ident(name)], objects(name))
        for name in rows:
            await ctx.upsert_data(module.__dict__[ident(name)], objects(name))
        found = {}
        for name in rows:
            cls = module.__dict__[ident(name)]
            if not await explorer.has_table(ctx.get_table_id(ClassRef(cls))):
                return f"has_table: {name!r} is not found"
            for f in items[name].fields:
                if not await explorer.has_column(ctx.get_table_id(ClassRef(cls)), LocalId(f.name)):
                    return f"has_column: {f.name!r} of {name!r} is not found"
            table = ctx.get_table(cls)
            found[name] = await ctx.query_all(int, f"SELECT {table.primary_key[0]} FROM {table.name} ORDER BY {table.primary_key[0]}")
            if found[name] != [r[0] for r in rows[name]]:
                return f"query of {name!r} returns {found[name]}"
        return found

    try:
        out = session.run(version, mode, action)
    finally:
        session.server.touch()
    run.transition(3 * len(rows))
    if isinstance(out, str):
        return out
    stored = {(t.schema, t.name): t.rows for t in session.server.db.tables()}
    for name, values in rows.items():
        table = items[name]
        place = Expected(version, session.dialect, mode).place(version[0].ns, name)
        have = stored[place]
        want = []
        for r in values:
            row = dict(zip((f.name for f in table.fields), r))
            for f in table.fields:
                k, v = f.kind, row[f.name]
                if v is not None and (k[0] == "xenum" or (k[0] == "enum" and mode.enum_mode(session.dialect) == "relation")):
                    lookup = stored[Expected(version, session.dialect, mode).place(k[1], k[2])]
                    row[f.name] = next((x["id"] for x in lookup if x["value"] == v), f"missing {v!r}")
            want.append(row)
        if len(have) != len(want) or any(not any(same(a, b) for b in have) for a in want):
            return f"{name!r}: stored {have!r} instead of {want!r}"
    return None


def same(a: dict, b: dict) -> bool:
    return all(v == b.get(k) or (isinstance(v, str) and v.rstrip(" ") == str(b.get(k)).rstrip(" ")) for k, v in a.items())


# as text ---------------------------------------------------------------------------------------


WORD = "Xq"


BOUND = ("insert", "upsert", "merge", "delete")


def tokens(sql: str, dialect: str, bound: bool = False) -> list[tuple]:
    "Tokens of a script. A string that has SQL in it, such as a command to execute, is split as well."

    out: list[tuple] = []
    for t in tokenize(sql, dialect, placeholders=bound and dialect in ("postgresql", "mssql")):
        value = t.value
        if t.kind == "str" and isinstance(value, str) and value.startswith(("CREATE ", "DROP ", "ALTER ", "INSERT ")):
            out.append(("sql", tuple(tokens(value, dialect))))
        elif t.kind == "word":
            out.append((t.kind, str(value).upper()))
        elif t.kind == "ph":
            out.append((t.kind, None))
        else:
            out.append((t.kind, value))
    return out


def replace(tok: tuple, s: str) -> tuple:
    kind, value = tok
    if kind == "sql":
        return kind, tuple(replace(t, s) for t in value)
    if kind in ("id", "str"):
        value = value.replace(WORD, s)
    if kind == "id":
        value = value.replace(".", "_")  # names of constraints are made from names of tables in this way
    return kind, value


def script(sql: str, dialect: str, s: str, bound: bool = False) -> Counter:
    "Statements of a script regardless of their order, and that of the objects and values in them."

    out: Counter = Counter()
    part: list = []
    for t in [*tokens(sql, dialect, bound), ("op", ";")]:
        part.append(replace(t, s))
        if t == ("op", ";"):
            out[tuple(sorted(map(repr, part)))] += 1
            part = []
    return out


def generated(dialect: str, p: Position, s: str, unscoped: bool = False) -> Iterator[tuple[str, Optional[str]]]:
    "Scripts and statements that the generator writes."

    versions = p.make(s)
    generators = []
    kind = get_dialect(dialect).get_generator_type()
    for n, version in enumerate(versions):
        modules = build(version)
        o = options(version, p.mode)
        if unscoped:
            o = dataclasses.replace(o, namespaces={modules[m.ns]: None for m in version})
        g = kind(o)
        generators.append(g)
        yield f"create-{n}", g.create(modules=[modules[m.ns] for m in version])
    for n in range(1, len(generators)):
        try:
            text = generators[n - 1].get_mutate_stmt(generators[n].state)
        except Exception:
            text = None
        yield f"mutate-{n}", text
    g = generators[0]
    yield "drop", g.drop()
    g.create(modules=[build(versions[0])[m.ns] for m in versions[0]])
    for statement in BOUND:
        parts = []
        for ns in g.state.namespaces.values():
            for t in ns.tables.values():
                try:
                    text = getattr(g, f"get_table_{statement}_stmt")(t)
                except Exception:
                    continue
                parts.append(formatted(text) if dialect == "mysql" else text)
        yield statement, ";\n".join(parts) or None


def formatted(text: str) -> str:
    "Statement as the driver of MySQL formats it."

    m = RE_INSERT_VALUES.match(text)
    if m:
        return m.group(1) % () + m.group(2).replace("%s", "0") + (m.group(3) or "")
    return text % (0,)


def unscoped_text(run: Run, dialect: str, name: str) -> None:
    if all(len(v) == 1 and v[0].ns == "app" for v in ALL[name].make(WORD)):
        as_text(run, dialect, name, True)


def as_text(run: Run, dialect: str, name: str, unscoped: bool = False) -> None:
    p = ALL[name]
    label = name + (" unscoped" if unscoped else "")
    failures = Failures(run, dialect, label + " text")
    try:
        plain = list(generated(dialect, p, WORD, unscoped))
    except Exception:
        return  # not supported by the dialect
    for s in strings(run.thorough, dialect):
        if p.named and not namable(dialect, s) or s in ("T", "Q", "E", "S", "K", "X"):
            continue
        if name.startswith("literal") and len(s) > 8:
            continue
        if unscoped and not run.thorough and s not in CORE and s not in WORDS:
            continue
        if dialect == "mysql" and "(inline)" in name and not s.isascii():
            continue  # the character set of the column depends on its labels
        run.state((dialect, label, s, "text"))
        run.case((dialect, label, s, "text"))
        step = "create-0"
        try:
            for (step, sql), (_, text) in zip(plain, generated(dialect, p, s, unscoped), strict=True):
                run.transition()
                if (sql is None) != (text is None):
                    failures.add(s, step, "refused", f"{text!r} instead of {sql!r}")
                    break
                if sql is None:
                    continue
                want, have = script(sql, dialect, s, step in BOUND), script(text, dialect, WORD, step in BOUND)
                if want != have:
                    failures.add(s, step, "tokens", f"{text!r}: {list((have - want))[:2]} instead of {list(want - have)[:2]}"[:900])
                    break
            else:
                run.trace()
        except Exception as e:
            failures.add(s, step, W.error_head(e), repr(e)[:500])


COMMENTED = ("table", "column", "struct", "member")


def comments(run: Run, dialect: str, what: str) -> None:
    "Comments in creation and change of objects, which may be any text."

    failures = Failures(run, dialect, f"comment of {what}")
    version = app(C("S", (F("x", ("int", 8)),)), W.table("T", F("v", ("struct", "app", "S"), opt=True), F("w", ("int", 4), opt=True)))

    def catalog(s: Optional[str]) -> Any:
        g = get_dialect(dialect).get_generator_type()(options(version, Mode()))
        g.create(modules=[build(version)["app"]])
        for ns in g.state.namespaces.values():
            for t in ns.tables.values():
                if what == "table":
                    t.description = s
                if what == "column":
                    for c in t.columns.values():
                        c.description = s
            for st in ns.structs.values():
                if what == "struct":
                    st.description = s
                if what == "member":
                    for m in st.members.values():
                        m.description = s
        return g

    def texts(s: str) -> list[Optional[str]]:
        # the alternatives have the same lines so that they are shortened in the same way
        a, b, c = catalog(s), catalog("other"), catalog(None)
        return [str(a.state.create_stmt()), b.get_mutate_stmt(a.state), c.get_mutate_stmt(a.state), a.get_mutate_stmt(b.state), a.get_mutate_stmt(c.state)]

    plain = texts(WORD)
    for s in strings(run.thorough, dialect):
        if dialect == "mysql" and what in ("table", "column") and ("\n" in s or "\r" in s):
            continue  # comments are short descriptions
        run.state((dialect, "comment", what, s))
        run.case((dialect, "comment", what, s))
        try:
            for n, (sql, text) in enumerate(zip(plain, texts(s))):
                run.transition()
                if (sql is None) != (text is None):
                    failures.add(s, f"comment-{n}", "refused", f"{text!r} instead of {sql!r}")
                    break
                if sql is not None and script(sql, dialect, s) != script(text, dialect, WORD):
                    failures.add(s, f"comment-{n}", "tokens", f"{text!r} is not {sql!r} with {s!r}")
                    break
            else:
                run.trace()
        except Exception as e:
            failures.add(s, "comment", W.error_head(e), repr(e)[:500])


# prefixes ------------------------------------------------------------------------------------------


def prefixes(run: Run, dialect: str, _: str) -> None:
    "Namespaces in dialects in which a namespace is a prefix of the names of its tables."

    failures = Failures(run, dialect, "prefix")
    for s in strings(run.thorough, dialect):
        if not namable(dialect, s) or (dialect == "oracle" and "$" in s):
            continue
        near = set()
        for i in range(len(s)):
            for c in ("a", "b", "_", "%", "\\"):
                near.add(s[:i] + c + s[i + 1 :])
                near.add(s[:i] + c + s[i:])
            near.add(s[:i] + s[i + 1 :])
        near |= {"x" + s, s + "x", s.upper(), s.lower(), s + s}
        other = [n for n in sorted(near) if n and n != s and (dialect != "mysql" or n.lower() != s.lower())]
        names = [f"{s}__T", f"{s}__{s}", f"{s}__a__b", *(f"{n}{sep}T" for n in other for sep in ("__", "_", "_x")), f"{s}_T", f"{s}T", f"{s}_xT", s, "T"]
        names = [n for n in dict.fromkeys(names) if namable(dialect, n)]
        if dialect == "mysql":
            names = list({n.lower(): n for n in reversed(names)}.values())
        session = W.Session(dialect)
        for n in names:
            quoted = '"' + n.replace('"', '""') + '"'
            Exec(session.server.db, f'CREATE TABLE {quoted} ("id" integer NOT NULL, PRIMARY KEY ("id"))').run()
        session.server.touch()
        mine = {n for n in names if n.startswith(f"{s}__")}
        version = (M(s, (Q,)),)
        run.state((dialect, "prefix", s))
        run.case((dialect, "prefix", s))

        async def find(ctx: Any, modules: dict) -> Any:
            ns = await get_dialect(dialect).create_explorer(ctx).get_namespace(LocalId(s))
            return {t.name.local_id for t in ns.tables.values()}

        try:
            run.transition()
            found = session.run(version, Mode(), find)
            if found != mine:
                failures.add(s, "discover", "tables", f"finds {sorted(found - mine)}, and misses {sorted(mine - found)} of {names}")
            run.transition()
            drop(session, version, Mode())
            left = {t.name for t in session.server.db.tables()}
            if left != set(names) - mine:
                failures.add(s, "drop", "tables", f"leaves {sorted(left & mine)} and drops {sorted(set(names) - mine - left)} of {names}")
            run.trace()
        except Exception as e:
            failures.add(s, "prefix", W.error_head(e), repr(W.cause(e))[:500])
