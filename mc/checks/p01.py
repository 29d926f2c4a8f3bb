"""
P01: schema synchronisation runs cleanly and reaches the desired schema.

All histories of schema versions up to a bound, executed by the real library (class conversion, discovery queries, change
computation, statement execution) on a model of each database server; after each step the structure of the database is
compared with the structure that the version requires, which is derived from the version without the library.
"""

from typing import Any

from pysqlsync.factory import get_dialect

from ..core import Run, parallel
from ..db import drivers as D
from ..db import world as W
from ..db.explore import RETAINED, History, change, has_checks, script_between, signature, tasks
from ..db.universe import options, build

LEVEL = "model_checking"
RULE = (
    "every path of synchronisations up to the depth through the versions of each theme, and the script a generator "
    "computes between two versions without a database, times dialect, times the order in which the server lists its "
    "objects; non-trivial = a distinct (dialect, theme, order, previous version, version)"
)
ASSUMPTIONS = [
    "the database is a model of the server (parser, catalog, constraints, dependency rules) of each dialect",
    "changes that lose precision or that the library documents as unsupported are not explored (narrowing a type, "
    "re-targeting a reference, removing enumeration values)",
]


def explore(run: Run) -> None:
    D.install()
    depth = 3 if run.thorough else 2
    run.bounds = {"depth": depth, "dialects": list(D.DIALECTS),
                  "themes": {d: {t.name: len(t.versions) for t in W.structure_themes(d, run.thorough)} for d in D.DIALECTS}}

    def visit(h: History, session: W.Session, j: int, sig: str, history: list, ddl: list[str]) -> None:
        for text in W.compare(session, h.theme.versions[j], h.theme.mode_of(j), RETAINED)[:1]:
            s = signature(h.theme, h.dialect, history, False, f"{sig}/structure", text)
            run_.violation(s, f"{text}\nhistory: {history}\nstatements:\n" + "\n".join(ddl), replay(h, history))

    def on_error(h: History, e: Exception, sig: str, history: list) -> None:
        s = signature(h.theme, h.dialect, history, False, f"{sig}/error/{W.error_head(e)}", str(W.cause(e)))
        run_.violation(s, f"{e!r}\ncause: {W.cause(e)!r}\nhistory: {history}", replay(h, history))

    def replay(h: History, history: list) -> dict:
        return {"dialect": h.dialect, "theme": h.theme.name, "reverse": h.reverse,
                "versions": [repr(h.theme.versions[k]) for k in history]}

    run_ = run

    def work(part: Run, item: tuple) -> None:
        nonlocal run_
        run_ = part
        dialect, n, reverse, first = item
        theme = W.structure_themes(dialect, part.thorough)[n]
        history = History(part, dialect, theme, reverse, depth, visit, on_error)
        history.start(first)
        if not reverse:
            scripts(history, first)

    def scripts(h: History, i: int) -> None:
        "Creates a version with a script, then changes it to another version with a script; nothing is discovered."

        v, mode = h.theme.versions[i], h.theme.mode_of(i)
        session = W.Session(h.dialect)
        sig = f"{h.prefix}/script/new-{i}"
        if not step(h, session, None, i, sig):
            return
        base = session.server.db.copy()
        for j, w in enumerate(h.theme.versions):
            if j == i or not h.theme.allowed(v, w) or (has_checks(h.theme, i) and has_checks(h.theme, j)):
                continue  # the library refuses to change a check constraint that it knows
            session.server.db.restore(base)
            session.server.touch()
            step(h, session, i, j, f"{h.prefix}/script/{change(h.theme, i, j)}")

    def step(h: History, session: W.Session, i: Any, j: int, sig: str) -> bool:
        old = (h.theme.versions[i], h.theme.mode_of(i)) if i is not None else None
        new = (h.theme.versions[j], h.theme.mode_of(j))
        where = [i, j]
        h.run.transition()
        try:
            stmt = script_between(session, old, new)

            async def action(ctx: Any, modules: dict) -> None:
                if stmt:
                    await ctx.execute(stmt)

            session.run(new[0], new[1], action)
        except Exception as e:
            h.run.case((h.prefix, "script", i, j), "script error")
            on_error(h, e, sig, [k for k in where if k is not None])
            return False
        h.run.trace()
        h.run.state((h.prefix, "script", session.state(), j))
        h.run.case((h.prefix, "script", i, j), f"{h.dialect} script")
        diff = W.compare(session, new[0], new[1], RETAINED)
        for text in diff[:1]:
            h.run.violation(f"{sig}/structure", f"{text}\nversions: {where}\nscript:\n{stmt}", replay(h, [k for k in where if k is not None]))
        return not diff

    parallel(run, work, tasks(run.thorough))
