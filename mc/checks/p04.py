"""
P04: schema changes keep the data that both versions have a place for.

All pairs of schema versions on populated tables: the change is computed and executed by the real library on a model of
each database server, both with discovery of the previous version and with a script between two versions.
"""

from typing import Any, Iterator, Optional

from ..core import Run, parallel
from ..db import drivers as D
from ..db import world as W
from ..db.explore import RETAINED, change, has_checks, script_between
from ..db.model import Db, canon_value
from ..db.rows import identify, populate
from ..db.universe import C, E, Expected, F, M, Mode

LEVEL = "model_checking"
RULE = (
    "every change between two versions of each theme, with and without missing values in the rows, by synchronisation and "
    "by a script between the versions, times dialect; non-trivial = a distinct (dialect, theme, pair, rows, way) in which "
    "at least one row is in a table of both versions"
)
ASSUMPTIONS = [
    "the database is a model of the server of each dialect, with rows and conversion of values",
    "changes that narrow a type are not explored; tables that gain a required column without default, on which servers "
    "reject or fill in a value of their own, have no rows in the changes concerned",
]
ROWS = 4


def migration_themes(dialect: str) -> Iterator[W.Theme]:
    "Enumerations, and text, that become references to lookup tables."

    e = E("E", ("a", "b"))
    g = E("G", ("x", "it's", "z"))
    one = E("O", ("only",))
    fe = F("e", ("enum", "app", "E"))
    fo = F("e", ("enum", "app", "E"), opt=True)
    fg = F("g", ("enum", "app", "G"), opt=True)
    h = F("h", ("enum", "app", "G"))
    t = W.table
    shapes: list[list] = [
        [e, t("T", fe)],
        [e, t("T", fo)],
        [e, g, t("T", fe, fg)],
        [g, t("T", fg, h)],
        [e, t("T", fe), t("U", fo)],
        [e, g, t("T", fe), t("U", fg, F("n", ("int", 8), opt=True))],
        [one, t("T", F("o", ("enum", "app", "O")))],
    ]
    versions = [(M("app", tuple(x)),) for x in shapes]
    old = {"postgresql": ("type", "check"), "mysql": ("inline",), "mssql": ("check",), "oracle": ("check",)}[dialect]
    for mode in old:
        modes = [Mode(enum=mode)] * len(shapes) + [Mode(enum="relation")] * len(shapes)
        yield W.Theme(f"lookup-{mode}", versions + versions, modes=modes)

    texts = []
    for shape in shapes:
        items = [i for i in shape if isinstance(i, C)]
        texts.append((M("app", tuple(
            C(c.name, tuple(F(f.name, ("str", 64), f.opt) if f.kind[0] == "enum" else f for f in c.fields)) for c in items
        )),))
    yield W.Theme("lookup-text", texts + versions, mode=Mode(enum="relation"), modes=[Mode(enum="relation")] * (2 * len(shapes)))


def migration_allowed(theme: W.Theme, i: int, j: int) -> bool:
    "From other representations to lookup tables: the same shape, or another one."

    if not theme.name.startswith("lookup"):
        return theme.allowed(theme.versions[i], theme.versions[j])
    n = len(theme.versions) // 2
    return i < n <= j and W.keeps_values(theme.versions[i], theme.versions[j])


def themes(dialect: str, thorough: bool) -> list[W.Theme]:
    return list(migration_themes(dialect)) + [t for t in W.themes(dialect, thorough) if t.name != "checks"]


def explore(run: Run) -> None:
    D.install()
    run.bounds = {"rows": ROWS, "themes": {d: {t.name: len(t.versions) for t in themes(d, run.thorough)} for d in D.DIALECTS}}
    items = [(d, n, i) for d in D.DIALECTS for n, t in enumerate(themes(d, run.thorough)) for i in range(len(t.versions))]
    items.sort(key=lambda x: -len(themes(x[0], run.thorough)[x[1]].versions))
    parallel(run, work, items)


def image(db: Db, expected: Expected) -> dict[tuple, dict[tuple, dict[str, Any]]]:
    "Rows of all tables but lookup tables: {(schema, table): {key: {column: value}}}, with references to lookup tables resolved."

    def value(typ: tuple, v: Any) -> Any:
        if v is None:
            return None
        if typ[0] == "struct":
            members = db.schemas[typ[1]].structs[typ[2]].members
            return {m.name: value(m.typ, x) for m, x in zip(members, v)}
        if typ[0] == "array":
            return [value(typ[1], x) for x in v]
        return canon_value(v)

    out: dict[tuple, dict] = {}
    for t in db.tables():
        if (t.schema, t.name) in expected.lookup:
            continue
        resolve: dict[str, dict] = {}
        for con in t.cons.values():
            if con.kind == "f" and con.ref[:2] in expected.lookup:
                target = db.schemas[con.ref[0]].tables[con.ref[1]]
                resolve[con.cols[0]] = {r["id"]: r["value"] for r in target.rows}
        rows = {}
        for r in t.rows:
            row = {}
            for c in t.cols:
                v = r[c.name]
                if c.name in resolve and v is not None:
                    row[c.name] = resolve[c.name].get(v, f"unknown id {v!r}")
                else:
                    row[c.name] = value(c.typ, v)
            rows[identify(t, r)] = row
        out[t.schema, t.name] = rows
    return out


def same(a: Any, b: Any) -> bool:
    if isinstance(a, dict) and isinstance(b, dict):
        return all(same(a[k], b[k]) for k in a if k in b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def hard(before: Expected, after: Expected) -> tuple[set, set]:
    "Tables that gain a required column without default, and tables with a column that becomes required."

    gain, become = set(), set()
    old, new = before.structure(), after.structure()
    for schema, s in old.items():
        for name, t in s["tables"].items():
            target = new.get(schema, {"tables": {}})["tables"].get(name)
            if target is None:
                continue
            cols = {c[0]: c for c in t["columns"]}
            for c in target["columns"]:
                if c[0] not in cols:
                    if c[2] and c[3] is None:
                        gain.add((schema, name))
                elif c[2] and not cols[c[0]][2]:
                    become.add((schema, name))
    return gain, become


def fillable(tables: set, after: Expected) -> set:
    "Leaves out tables that would refer to tables without rows."

    structure = after.structure()
    while True:
        rest = set()
        for schema, name in tables:
            t = structure.get(schema, {"tables": {}})["tables"].get(name)
            targets = [c[2][:2] for c in t["constraints"] if c[0] == "f"] if t is not None else []
            if all(x in tables or x in after.lookup for x in targets):
                rest.add((schema, name))
        if rest == tables:
            return rest
        tables = rest


def work(run: Run, item: tuple) -> None:
    dialect, n, i = item
    theme = themes(dialect, run.thorough)[n]
    v, mode = theme.versions[i], theme.mode_of(i)
    before = Expected(v, dialect, mode)
    session = W.Session(dialect)
    try:
        session.sync(v, mode)
        if W.compare(session, v, mode, ()):
            return  # reported by P01
    except Exception:
        return  # reported by P01
    empty = session.server.db.copy()
    for j, w in enumerate(theme.versions):
        if j == i or not migration_allowed(theme, i, j):
            continue
        m = theme.mode_of(j)
        after = Expected(w, dialect, m)
        gain, become = hard(before, after)
        script = None
        if not (has_checks(theme, i) and has_checks(theme, j)):
            script = script_between(session, (v, mode), (w, m))
        for nulls in (False, True):
            session.server.db.restore(empty)
            tables = {(t.schema, t.name) for t in session.server.db.tables()}
            populate(session.server.db, ROWS, nulls, before.lookup,
                     fillable(tables - gain - (become if nulls else set()), after))
            base = session.server.db.copy()
            kept = image(base, before)
            for way in ("sync", "script"):
                if way == "script" and script is None:
                    continue
                session.server.db.restore(base)
                session.server.touch()
                sig = f"{dialect}/{theme.name}/{change(theme, i, j) if theme.modes is None else f'{i}->{j}'}/{'nulls' if nulls else 'values'}/{way}"
                check(run, session, before, after, w, m, sig, kept, empty, script if way == "script" else None)


def former_values(before: Expected, after: Expected, schema: str, name: str) -> tuple[str, ...]:
    "Values of a former enumeration type, or of the type of a column that becomes a reference."

    mode = before.mode.enum_mode(before.dialect)
    old, new = W.get_fields(before.version), W.get_fields(after.version)
    for (ns, item_name), item in before.items.items():
        if isinstance(item, E) and before.place(ns, item_name) == (schema, name):
            used = [k for k, f in old.items() if f.kind[:3] == ("enum", ns, item_name)]
            if (mode == "type" and used) or (mode == "inline" and any(k in new for k in used)):
                return item.values
    return ()


def perform(session: W.Session, w: tuple, m: Mode, script: Optional[str]) -> None:
    async def action(ctx: Any, modules: dict) -> None:
        await ctx.execute(script)

    if script is None:
        session.sync(w, m)
    else:
        session.run(w, m, action)


def check(run: Run, session: W.Session, before: Expected, after: Expected, w: tuple, m: Mode, sig: str, kept: dict,
          empty: Db, script: Optional[str]) -> None:
    def report(what: str, message: str) -> None:
        name = sig.split("/")[1]
        if before.dialect in ("mssql", "oracle") and name.startswith("lookup"):
            # recorded finding: no data is migrated
            run.violation(f"{before.dialect}/{name}", message, replay)
        else:
            run.violation(f"{sig}/{what}", message, replay)

    replay = {"dialect": before.dialect, "versions": [repr(before.version), repr(w)], "modes": [repr(before.mode), repr(m)],
              "rows": repr(kept), "script": script}
    run.transition()
    mark = len(session.server.log)
    try:
        with run.limit(sig):
            perform(session, w, m, script)
    except Exception as e:
        # changes that fail even without rows are reported by P01
        session.server.db.restore(empty)
        session.server.touch()
        try:
            perform(session, w, m, script)
        except Exception as other:
            if W.error_head(other) == W.error_head(e) and "/lookup-" not in sig:
                return
        report(f"error/{W.error_head(e)}", f"{e!r}\ncause: {W.cause(e)!r}\nrows: {kept!r}")
        return
    run.trace()
    run.state((before.dialect, session.state(True)))
    text = "\n".join(session.changes(mark))
    now = image(session.server.db, after)
    both = [t for t in kept if t in now]
    count = sum(len(kept[t]) for t in both)
    run.case(sig if count else None, f"{before.dialect} {min(count, 5)} rows")
    for t in both:
        if set(kept[t]) != set(now[t]):
            report(f"{t[1]}/rows", f"rows of {t}: {sorted(kept[t])!r} became {sorted(now[t])!r}\n{text}")
            return
        for key, row in kept[t].items():
            for name, x in row.items():
                if name in now[t][key] and not same(x, now[t][key][name]):
                    report(f"{t[1]}.{name}/value", f"{t} row {key} column {name}: {x!r} became {now[t][key][name]!r}\n{text}")
                    return
    for (schema, name) in after.lookup:
        rows = session.server.db.schemas[schema].tables[name].rows
        have = [r["value"] for r in rows]
        wanted = before.lookup.get((schema, name), former_values(before, after, schema, name))
        if len(set(have)) != len(have) or len({r["id"] for r in rows}) != len(rows) or not set(wanted) <= set(have):
            report(f"{name}/lookup", f"lookup table {name} has {rows!r}, expected {wanted!r}\n{text}")
            return
    for text2 in W.compare(session, w, m, RETAINED)[:1]:
        report("structure", f"{text2}\n{text}")
