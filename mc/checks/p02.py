"""
P02: synchronising an up-to-date database does nothing.

All histories of schema versions up to a bound, executed by the real library on a model of each database server; after each
step, the database is synchronised again by a new connection with the same classes and the statements sent are observed.
"""

from typing import Any

from ..core import Run, parallel
from ..db import drivers as D
from ..db import world as W
from ..db.explore import History, signature, tasks

LEVEL = "model_checking"
RULE = (
    "after every path of synchronisations up to the depth through the versions of each theme: a second synchronisation "
    "with a new connection, and the change script between the desired state and itself and between the discovered state "
    "and itself; times dialect, times the order in which the server lists its objects; non-trivial = a distinct "
    "(dialect, theme, order, previous version, version)"
)
ASSUMPTIONS = [
    "the catalog that the discovery queries read is derived from a model of the server of each dialect",
    "paths on which the first synchronisation fails or falls short are reported by P01",
]


def explore(run: Run) -> None:
    D.install()
    depth = 3 if run.thorough else 2
    run.bounds = {"depth": depth, "dialects": list(D.DIALECTS),
                  "themes": {d: {t.name: len(t.versions) for t in W.structure_themes(d, run.thorough)} for d in D.DIALECTS}}
    run_ = run

    def replay(h: History, history: list) -> dict:
        return {"dialect": h.dialect, "theme": h.theme.name, "reverse": h.reverse,
                "versions": [repr(h.theme.versions[k]) for k in history]}

    def visit(h: History, session: W.Session, j: int, sig: str, history: list, ddl: list[str]) -> None:
        version, mode = h.theme.versions[j], h.theme.mode_of(j)
        before = session.state()
        base = session.server.db.copy()
        mark = len(session.server.log)
        selves: list = []

        async def action(ctx: Any, modules: dict) -> None:
            from pysqlsync.factory import get_dialect

            explorer = get_dialect(h.dialect).create_explorer(ctx)
            listed = [modules[m.ns] for m in version]
            await explorer.synchronize(modules=listed)
            generator = ctx.connection.generator
            selves.append(generator.get_mutate_stmt(generator.state))
            # once more with the state that the generator now has
            await explorer.synchronize(modules=listed)
            generator.reset()
            generator.create(modules=listed)
            selves.append(generator.get_mutate_stmt(generator.state))

        try:
            session.run(version, mode, action)
        except Exception as e:
            s = signature(h.theme, h.dialect, history, True, f"{sig}/error/{W.error_head(e)}", str(W.cause(e)))
            run_.violation(s, f"second synchronisation: {e!r}\ncause: {W.cause(e)!r}\nhistory: {history}", replay(h, history))
            session.server.db.restore(base)
            session.server.touch()
            return
        again = session.changes(mark)
        if again:
            run_.violation(f"{sig}/{W.statement_head(again[0])}", f"second synchronisation executed {again!r}\nhistory: {history}", replay(h, history))
        elif session.state() != before:
            run_.violation(f"{sig}/state", f"second synchronisation changed the database\nhistory: {history}", replay(h, history))
        for k, stmt in enumerate(selves):
            if stmt is not None:
                run_.violation(f"{sig}/self{k}", f"script between equal states: {stmt!r}\nhistory: {history}", replay(h, history))
        run_.trace()
        session.server.db.restore(base)
        session.server.touch()

    def on_error(h: History, e: Exception, sig: str, history: list) -> None:
        run_.outcomes["first synchronisation failed (P01)"] += 1

    def work(part: Run, item: tuple) -> None:
        nonlocal run_
        run_ = part
        dialect, n, reverse, first = item
        History(part, dialect, W.structure_themes(dialect, part.thorough)[n], reverse, depth, visit, on_error).start(first)

    parallel(run, work, tasks(run.thorough, both=run.thorough))
