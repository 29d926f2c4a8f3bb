"""
Exploration of all histories of schema versions up to a bound, shared by P01 and P02.

A state is a database (all names, constraints, types, order of columns) together with the version that the program has;
a transition is a synchronisation by the real library with another version, or the execution of a change script that its
generator computes between two versions without looking at the database.
"""

import re
from typing import Any, Callable, Optional

from pysqlsync.factory import get_dialect

from ..core import HarnessError, Run, Stop
from . import drivers as D
from . import world as W
from .universe import C, F, Mode, Version, build, options

RETAINED = ("one", "two", "app", "three")


def kind_text(kind: tuple) -> str:
    return "".join(str(x) for x in kind if not isinstance(x, tuple)) + "".join(kind_text(x) for x in kind if isinstance(x, tuple))


def change(theme: W.Theme, i: Optional[int], j: int) -> str:
    "Names the change from one version to another."

    if i is None:
        return f"new-{j}"
    a, b = W.get_fields(theme.versions[i]), W.get_fields(theme.versions[j])
    common = sorted(k for k in a if k in b and a[k].kind != b[k].kind)
    if set(a) == set(b) and len(common) == 1:
        k = common[0]
        return f"{k[1]}.{k[2]}:{kind_text(a[k].kind)}->{kind_text(b[k].kind)}"
    return f"{i}->{j}"


def script_between(session: W.Session, old: Optional[tuple[Version, Mode]], new: tuple[Version, Mode]) -> Optional[str]:
    "The script that a generator with knowledge of the old version (and no access to a database) computes."

    dialect = get_dialect(session.dialect)
    old_modules = build(old[0]) if old is not None else None
    new_modules = build(new[0])
    target = dialect.create_generator(options(*new))
    target.create(modules=[new_modules[m.ns] for m in new[0]])
    source = dialect.create_generator(options(*new))
    if old is not None:
        before = dialect.create_generator(options(*old))
        before.create(modules=[old_modules[m.ns] for m in old[0]])
        source.state = before.state
    return source.get_mutate_stmt(target.state)


def has_checks(theme: W.Theme, i: int) -> bool:
    enum_checks = theme.mode_of(i).enum == "check"
    return any(f.kind[0] == "range" or (enum_checks and f.kind[0] == "enum") for f in W.get_fields(theme.versions[i]).values())


def signature(theme: W.Theme, dialect: str, history: list, again: bool, sig: str, text: str) -> str:
    """
    Signature of a violation; those of the recorded finding that check constraints are not discovered have their own.

    :param again: True if the last version was synchronised a second time.
    """

    if again and has_checks(theme, history[-1]) and re.search(r"constraint '(ch_\w+)' for table '\w+' already exists", text):
        return f"{dialect}/check-constraint/added-again"
    return sig


class History:
    "Explores one theme in one dialect from one first version."

    def __init__(self, run: Run, dialect: str, theme: W.Theme, reverse: bool, depth: int,
                 visit: Callable[["History", W.Session, int, str, list, list[str]], None],
                 on_error: Callable[["History", Exception, str, list], None]) -> None:
        self.run = run
        self.dialect = dialect
        self.theme = theme
        self.reverse = reverse
        self.depth = depth
        self.visit = visit
        self.on_error = on_error
        self.prefix = f"{dialect}/{theme.name}"

    def sync(self, session: W.Session, i: Optional[int], j: int, history: list) -> Optional[list[str]]:
        v = self.theme.versions[j]
        sig = f"{self.prefix}/{change(self.theme, i, j)}"
        history = history + [j]
        self.run.transition()
        with self.run.limit(sig):
            try:
                ddl = session.sync(v, self.theme.mode_of(j))
            except (Stop, HarnessError):
                raise
            except Exception as e:
                self.run.case((self.prefix, tuple(history)), "error")
                self.on_error(self, e, sig, history)
                return None
        self.run.trace()
        return ddl

    def start(self, first: int) -> None:
        session = W.Session(self.dialect, reverse=self.reverse)
        seen: set = set()
        frontier: list[tuple[Any, int, list]] = []
        ddl = self.sync(session, None, first, [])
        if ddl is None:
            return
        self.arrive(session, None, first, [first], ddl, seen, frontier)
        for _ in range(self.depth - 1):
            frontier, current = [], frontier
            for base, i, history in current:
                for j, w in enumerate(self.theme.versions):
                    if j == i or not self.theme.allowed(self.theme.versions[i], w):
                        continue
                    session.server.db.restore(base)
                    session.server.touch()
                    ddl = self.sync(session, i, j, history)
                    if ddl is not None:
                        self.arrive(session, i, j, history + [j], ddl, seen, frontier)

    def arrive(self, session: W.Session, i: Optional[int], j: int, history: list, ddl: list[str], seen: set, frontier: list) -> None:
        key = (self.dialect, self.theme.name, session.state(), j)
        self.run.state(key)
        k = hash(key)
        new = k not in seen
        base = session.server.db.copy() if new else None
        self.run.case((self.prefix, self.reverse, i, j), f"{self.dialect} {len(ddl)} statements" if len(ddl) < 3 else f"{self.dialect} more statements")
        self.visit(self, session, j, f"{self.prefix}/{change(self.theme, i, j)}", history, ddl)
        if new:
            seen.add(k)
            frontier.append((base, j, history))


def tasks(thorough: bool, both: bool = True) -> list[tuple]:
    """
    (dialect, theme, reverse, first version): units of parallel work, the longer ones first.

    :param both: Explore both orders in which a server lists objects, rather than either one depending on the first version.
    """

    out = []
    for d in D.DIALECTS:
        for n, th in enumerate(W.structure_themes(d, thorough)):
            for i in range(len(th.versions)):
                for reverse in (False, True) if both else (bool(i % 2),):
                    out.append((len(th.versions), d, n, reverse, i))
    out.sort(key=lambda x: -x[0])
    return [x[1:] for x in out]
