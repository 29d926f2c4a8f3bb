"""
P03: drop permissions are honoured.

All pairs of schema versions times all 16 combinations of permissions, executed by the real library on a populated model
of each database server. Which objects may or must remain is computed from the two versions and the permissions alone.
"""

import itertools
from typing import Any, Optional

from pysqlsync.formation.object_types import FormationError

from ..core import Run, parallel
from ..db import drivers as D
from ..db import world as W
from ..db.model import freeze, structure
from ..db.rows import populate
from ..db.universe import C, E, Expected, F, M, Mode, difference, normal

LEVEL = "model_checking"
RULE = (
    "every pair of versions of each theme that drops something, times the combinations of the four permissions (all 16 if "
    "thorough, otherwise those of which no object is missing vary together), times dialect, on populated tables, followed by a repetition and by a synchronisation that permits everything; "
    "non-trivial = a distinct (dialect, theme, pair, permissions) with at least one object missing from the new version"
)
ASSUMPTIONS = [
    "the database is a model of the server of each dialect",
    "an object of a permitted kind on which a retained object depends has to be retained as well",
    "a namespace that may be dropped while some kind of object in it may not is left unspecified, as the documentation says "
    "that dropping a namespace includes all objects within",
]


def drop_theme() -> W.Theme:
    "All combinations of dropping a table, a type and a structure, and of what retains what."

    e = E("E", ("a", "b"))
    g = E("G", ("x", "y"))
    s = C("S", (F("x", ("int", 8)),))
    p = C("P", (F("s", ("struct", "app", "S")),))
    fe = F("e", ("enum", "app", "E"), opt=True)
    fg = F("g", ("enum", "app", "G"), opt=True)
    fs = F("s", ("struct", "app", "S"), opt=True)
    fp = F("p", ("struct", "app", "P"), opt=True)
    la = F("l", ("list", ("ref", "app", "A")))
    t = W.table
    shapes: list[list] = [
        [e, g, s, p, t("A", fe, fs), t("B", fg, fp, F("a", ("ref", "app", "A"), opt=True))],
        [t("A")],
        [t("B")],
        [e, t("A", fe), t("B")],
        [s, t("A", fs), t("B")],
        [e, s, t("A", fe, fs)],
        [t("A"), t("B", la)],
        [t("A"), t("B", la, F("n", ("int", 4), opt=True)), t("C", F("b", ("ref", "app", "B"), opt=True))],
        [t("K", F("n", ("int", 4), opt=True))],
    ]
    return W.Theme("drop", [(M("app", tuple(x)),) for x in shapes])


def spaces_theme() -> W.Theme:
    "Namespaces that become empty while others refer, or do not refer, to them."

    def v(one: list, two: list, three: Optional[list] = None) -> tuple:
        return (M("one", tuple(one)), M("two", tuple(two)), M("three", tuple(three or [])))

    t = W.table
    e = E("E", ("a", "b"))
    to_e = F("e", ("enum", "one", "E"), opt=True)
    to1 = F("o", ("ref", "one", "A"), opt=True)
    to2 = F("t", ("ref", "two", "B"), opt=True)
    return W.Theme("spaces", [
        v([t("A")], [t("B", to1)], [t("C", to2)]),
        v([t("A")], [t("B")], []),
        v([t("A")], [], []),
        v([], [t("B")], [t("C", to2)]),
        v([e, t("A", to_e)], [t("B", to_e)], []),
        v([t("X")], [t("B")], [t("C")]),
    ])


def themes(dialect: str, thorough: bool) -> list[W.Theme]:
    names = ("references", "structs", "links", "namespaces", "default")
    out = [drop_theme(), spaces_theme()]
    out.extend(t for t in W.themes(dialect, thorough) if t.name in names or t.name.startswith("enums"))
    if thorough:
        out.append(next(t for t in W.themes(dialect, False) if t.name == "combined"))
    return out


def dependencies(session: W.Session, schema: str, category: str, name: str) -> set[tuple]:
    "Objects that an object of the database needs, as (category, schema, name)."

    out: set[tuple] = set()

    def types(typ: tuple) -> None:
        if typ[0] in ("enum", "struct"):
            out.add((typ[0] + "s", typ[1], typ[2]))
        elif typ[0] == "array":
            types(typ[1])

    s = session.server.db.schemas[schema]
    if category == "tables":
        t = s.tables[name]
        for c in t.cols:
            types(c.typ)
        out.update(("tables",) + con.ref[:2] for con in t.cons.values() if con.kind == "f")
    elif category == "structs":
        for m in s.structs[name].members:
            types(m.typ)
    return out


def image(session: W.Session, schema: str, category: str, name: str, after: Expected) -> Any:
    "Definition and rows of an object, less values of structures that the new version changes."

    def steady(typ: tuple) -> bool:
        if typ[0] == "array":
            return steady(typ[1])
        if typ[0] != "struct":
            return True
        members = session.server.db.schemas[typ[1]].structs[typ[2]].members
        return ("structs", typ[1], typ[2]) not in after.owner and all(steady(m.typ) for m in members)

    s = structure(session.server.db, names=True, order=True)
    if schema not in s or name not in s[schema][category]:
        return None
    rows = None
    if category == "tables":
        t = session.server.db.schemas[schema].tables[name]
        rows = sorted(freeze(sorted((k, repr(v)) for k, v in r.items() if steady(t.col(k).typ))) for r in t.rows)
    return freeze(s[schema][category][name]), rows


def explore(run: Run) -> None:
    D.install()
    run.bounds = {"permissions": 16, "themes": {d: {t.name: len(t.versions) for t in themes(d, run.thorough)} for d in D.DIALECTS}}
    items = [(d, n, i) for d in D.DIALECTS for n, t in enumerate(themes(d, run.thorough)) for i in range(len(t.versions))]
    parallel(run, work, items)


def work(run: Run, item: tuple) -> None:
    dialect, n, i = item
    theme = themes(dialect, run.thorough)[n]
    v, mode = theme.versions[i], theme.mode_of(i)
    before = Expected(v, dialect, mode)
    session = W.Session(dialect)
    try:
        session.sync(v, mode)
        if W.compare(session, v, mode, ()):
            return  # reported by P01
    except Exception:
        return  # reported by P01
    empty = session.server.db.copy()
    for j, w in enumerate(theme.versions):
        if j == i or not theme.allowed(v, w):
            continue
        after = Expected(w, dialect, theme.mode_of(j))
        missing = [o for o in before.owner if o not in after.owner]
        if not missing:
            continue
        # tables that change stay empty so that no change depends on what is in them
        old, new = before.structure(), after.structure()
        session.server.db.restore(empty)
        populate(session.server.db, lookup=before.lookup, only={
            (t.schema, t.name) for t in session.server.db.tables()
            if ("tables", t.schema, t.name) in missing or old[t.schema]["tables"][t.name] == new[t.schema]["tables"][t.name]
        })
        base = session.server.db.copy()
        for enum, struct, tab, ns in permissions(before, after, missing, run.thorough):
            session.server.db.restore(base)
            session.server.touch()
            m = theme.mode_of(j).replace(drop_enum=enum, drop_struct=struct, drop_table=tab, drop_namespace=ns)
            sig = f"{dialect}/{theme.name}/{i}->{j}/{'e' if enum else ''}{'s' if struct else ''}{'t' if tab else ''}{'n' if ns else ''}"
            replay = {"dialect": dialect, "theme": theme.name, "versions": [repr(v), repr(w)], "mode": repr(m)}
            check(run, session, before, after, missing, w, m, sig, replay)


def permissions(before: Expected, after: Expected, missing: list, thorough: bool) -> list[tuple[bool, ...]]:
    "Combinations of permissions; those for which nothing is missing vary together unless thorough."

    kinds = {o[0] for o in missing}
    relevant = [k in kinds for k in ("enums", "structs", "tables")]
    relevant.append(any(before.owner[o] not in after.owner.values() for o in missing))
    combos = list(itertools.product((True, False), repeat=4))
    if not thorough:
        combos = [c for c in combos if len({x for x, r in zip(c, relevant) if not r}) <= 1]
    return combos


def check(run: Run, session: W.Session, before: Expected, after: Expected, missing: list, w: tuple, m: Mode, sig: str, replay: Any) -> None:
    permitted = {"tables": m.drop_table, "enums": m.drop_enum, "structs": m.drop_struct}
    flat = before.dialect in ("mysql", "oracle")
    # where namespaces are only a prefix of names, all objects are in the namespace of the connection
    gone = set() if flat else {ns for ns in before.owner.values() if ns not in after.owner.values()}

    # what must remain, what must go, and what may do either
    must: set[tuple] = set()
    free: set[tuple] = set()
    drop: set[tuple] = set()
    for o in missing:
        if before.owner[o] in gone:
            if not m.drop_namespace:
                must.add(o)
            elif all(permitted.values()):
                drop.add(o)
            else:
                free.add(o)
        else:
            (drop if permitted[o[0]] else must).add(o)
    needs = {o: dependencies(session, o[1], o[0], o[2]) for o in missing}
    changed = True
    while changed:
        changed = False
        for o in list(must):
            for d in needs[o]:
                if d in drop or d in free:
                    drop.discard(d)
                    free.discard(d)
                    must.add(d)
                    changed = True
        for o in list(free):
            for d in needs[o]:
                if d in drop:
                    drop.discard(d)
                    free.add(d)
                    changed = True
    # a namespace of which a part must remain
    for ns in gone:
        part = [o for o in missing if before.owner[o] == ns]
        if any(o in must for o in part):
            for o in part:
                if o in drop:
                    drop.discard(o)
                    free.add(o)
    images = {o: image(session, o[1], o[0], o[2], after) for o in must}

    run.transition()
    mark = len(session.server.log)
    try:
        with run.limit(sig):
            session.sync(w, m)
    except Exception as e:
        run.violation(f"{sig}/error/{W.error_head(e)}", f"{e!r}\ncause: {W.cause(e)!r}", replay)
        return
    run.trace()
    run.state((sig.rsplit("/", 1)[0], session.state(True)))
    run.case(sig, f"retained {min(len(must), 3)}, dropped {min(len(drop), 3)}, unspecified {min(len(free), 3)}")
    script = "\n".join(session.changes(mark))

    for o in sorted(must, key=repr):
        now = image(session, o[1], o[0], o[2], after)
        if now != images[o]:
            what = "was dropped" if now is None else f"changed from {images[o]!r} to {now!r}"
            run.violation(f"{sig}/{'.'.join(o)}/not-retained", f"{o} must be retained but {what}\n{script}", replay)
            return
    have = normal(structure(session.server.db))
    for o in sorted(drop, key=repr):
        if o[1] in have and o[2] in have[o[1]][o[0]]:
            run.violation(f"{sig}/{'.'.join(o)}/not-dropped", f"{o} should have been dropped\n{script}", replay)
            return
    # the rest is as the new version requires
    for o in must | free:
        if o[1] in have:
            have[o[1]][o[0]].pop(o[2], None)
    want = after.structure()
    for name in list(have):
        if name not in want and not any(have[name].values()):
            if not flat and m.drop_namespace and not any(o[1] == name for o in must | free):
                run.violation(f"{sig}/namespace-not-dropped", f"namespace {name} should have been dropped\n{script}", replay)
                return
            del have[name]
    for text in difference(have, want)[:1]:
        run.violation(f"{sig}/structure", f"{text}\n{script}", replay)
        return

    # again without effect, then with all permissions
    mark = len(session.server.log)
    try:
        session.sync(w, m)
        again = session.changes(mark)
        if again:
            run.violation(f"{sig}/again", f"second synchronisation executed {again!r}", replay)
            return
        full = m.replace(drop_enum=True, drop_struct=True, drop_table=True, drop_namespace=True)
        session.sync(w, full)
        for text in W.compare(session, w, full, set(want) | {"one", "two", "three", "app"})[:1]:
            run.violation(f"{sig}/finally", f"after permitting all: {text}", replay)
    except Exception as e:
        run.violation(f"{sig}/finally/error/{W.error_head(e)}", f"{e!r}\ncause: {W.cause(e)!r}", replay)
