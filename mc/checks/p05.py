"""
P05: creation scripts run for any class graph, in any declaration order.

All graphs of references, links, composite types and enumerations over a few classes, placed in one or several namespaces;
the creation script for all orders of all subsets of the classes is executed on a model of each database server.
"""

import itertools
import re
import os
import subprocess
import sys
from typing import Any, Iterator, Optional

from pysqlsync.factory import get_dialect

from ..core import ROOT, HarnessError, Run, digest, parallel
from ..db import drivers as D
from ..db import universe
from ..db import world as W
from ..db.model import freeze, structure
from ..db.universe import C, E, Expected, F, M, Mode, Version, build, options

LEVEL = "model_checking"
RULE = (
    "every graph of each family, in both declaration orders, times dialect, times mode; for each the creation script for "
    "every order of every subset of the classes and of the modules; non-trivial = a distinct (dialect, mode, classes, "
    "requested classes) whose script was executed and the result compared"
)
ASSUMPTIONS = [
    "the database is a model of the server of each dialect",
    "a request for some classes includes all classes that these refer to, directly or not",
]
PK = W.PK
NS = ("one", "two", "three")


def place(items: list, spaces: tuple[int, ...], reverse: bool) -> Version:
    "Distributes items to namespaces."

    out = []
    for k in sorted(set(spaces)):
        chosen = tuple(x for x, s in zip(items, spaces) if s == k)
        out.append(M(NS[k], chosen[::-1] if reverse else chosen))
    return tuple(out)


def family_refs(thorough: bool) -> Iterator[Version]:
    "Plain references among three classes."

    pairs = [(i, j) for i in range(3) for j in range(3) if thorough or i != j or i == 0]
    spaces = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 2)]
    if thorough:
        spaces += [(0, 1, 1), (1, 0, 0), (1, 0, 1), (2, 1, 0)]
    for s in spaces:
        for mask in range(1 << len(pairs)):
            edges = [p for n, p in enumerate(pairs) if mask >> n & 1]
            items = [
                C("ABC"[i], (PK,) + tuple(F(f"r{j}", ("ref", NS[s[j]], "ABC"[j]), opt=(i + j) % 2 == 0) for a, j in edges if a == i))
                for i in range(3)
            ]
            yield place(items, s, mask % 2 == 1)


def family_links(thorough: bool) -> Iterator[Version]:
    "References, lists and sets between two classes, and from each to itself."

    kinds = ["none", "ref", "list", "set"]
    for s in [(0, 0), (0, 1)]:
        for choice in itertools.product(kinds, repeat=4):
            if not thorough and (choice.count("none") < 1 or s == (0, 1) and choice[0] != "none"):
                continue
            fields: list[list[F]] = [[], []]
            for (i, j), kind in zip([(0, 0), (0, 1), (1, 0), (1, 1)], choice):
                ref = ("ref", NS[s[j]], "AB"[j])
                if kind == "ref":
                    fields[i].append(F(f"r{j}", ref, opt=True))
                elif kind != "none":
                    fields[i].append(F(f"{kind[0]}{j}", (kind, ref)))
            yield place([C("AB"[i], (PK,) + tuple(fields[i])) for i in range(2)], s, choice[0] == "ref")


def family_structs(thorough: bool) -> Iterator[Version]:
    "Composite types nested in each other, in either namespace, used by tables of both."

    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    for mask in range(64):
        edges = [p for n, p in enumerate(pairs) if mask >> n & 1]
        # no cycles
        reach = set(edges)
        for k, i, j in itertools.product(range(3), repeat=3):
            if (i, k) in reach and (k, j) in reach:
                reach.add((i, j))
        if any((i, i) in reach for i in range(3)):
            continue
        for s in itertools.product((0, 1), repeat=3):
            # namespaces do not use each other's types mutually
            cross = {(s[i], s[j]) for i, j in edges if s[i] != s[j]}
            if len(cross) > 1 or (not thorough and sum(s) == 2):
                continue
            items: list = [
                C("PQS"[i], (F("x", ("int", 4)),) + tuple(
                    F(f"m{j}", ("struct", NS[s[j]], "PQS"[j]) if (i + j) % 2 else ("list", ("struct", NS[s[j]], "PQS"[j]))) for a, j in edges if a == i
                ))
                for i in range(3)
            ]
            where = list(s)
            host = next(iter(cross))[0] if cross else 0
            for n, used in enumerate(((0, 1), (2,))):
                # a table in a namespace that may use the types
                space = host if any(s[k] != host for k in used) or n == 0 else s[used[0]]
                if not cross and any(s[k] == 1 for k in used):
                    space = 1
                if not cross and any(s[k] != space for k in (0, 1, 2)):
                    used = tuple(k for k in used if s[k] == space)
                items.append(C("TU"[n], (PK,) + tuple(
                    F(f"s{k}", ("struct", NS[s[k]], "PQS"[k]), opt=True) for k in used)))
                where.append(space)
            yield place(items, tuple(where), mask % 2 == 1)


def family_enums(thorough: bool) -> Iterator[tuple[Version, str]]:
    "Enumerations in either namespace used by tables of both, alone, in lists, in composite types and with default values."

    uses = [(), (0,), (1,), (0, 1)]
    for s in itertools.product((0, 1), repeat=2):
        for a, b, form in itertools.product(uses, uses, ("value", "list", "struct", "default", "extensible", "both")):
            if form == "both" and not (set(a) & set(b)):
                continue
            if form == "default" and not thorough and a == b:
                continue
            # types of the two namespaces do not refer to each other mutually
            if any(s[k] == 1 for k in a) and any(s[k] == 0 for k in b):
                continue
            def fields(used: tuple[int, ...], open: bool = form == "extensible") -> tuple[F, ...]:
                out = []
                for k in used:
                    kind = ("enum", NS[s[k]], "EG"[k])
                    if form == "list":
                        out.append(F(f"e{k}", ("list", kind)))
                    elif form == "default":
                        out.append(F(f"e{k}", kind, default="M_b"))
                    elif open:
                        out.append(F(f"e{k}", ("xenum",) + kind[1:], opt=True))
                    else:
                        out.append(F(f"e{k}", kind, opt=k == 1))
                return tuple(out)

            values = (("a",), ("b",)) if form == "extensible" else (("a", "b"), ("b", "it's"))
            items: list = [E("E", values[0]), E("G", values[1])]
            where = list(s)
            if form == "struct" and a:
                items.append(C("S", fields(a)))
                where.append(0)
                items.append(C("A", (PK, F("s", ("struct", "one", "S"), opt=True))))
            else:
                items.append(C("A", (PK,) + fields(a)))
            where.append(0)
            items.append(C("B", (PK,) + fields(b, form in ("extensible", "both"))))
            where.append(1)
            yield place(items, tuple(where), False), form


def family_mutual() -> Iterator[Version]:
    "Namespaces that use each other's types."

    a, b = ("enum", "two", "G"), ("enum", "one", "E")
    yield (M("one", (E("E", ("a", "b")), C("A", (PK, F("g", a))))), M("two", (E("G", ("x",)), C("B", (PK, F("e", b, opt=True))))))
    s, t = C("S", (F("x", ("int", 4)),)), C("V", (F("y", ("str",)),))
    yield (M("one", (s, C("A", (PK, F("t", ("struct", "two", "V")))))), M("two", (t, C("B", (PK, F("s", ("struct", "one", "S")))))))


def versions(dialect: str, thorough: bool) -> Iterator[tuple[str, Version, Mode]]:
    for v in family_refs(thorough):
        yield "refs", v, Mode()
    for v in family_links(thorough):
        yield "links", v, Mode()
    if dialect == "postgresql" or thorough:
        for v in family_structs(thorough):
            yield "structs", v, Mode()
    for v in family_mutual():
        yield "mutual-types", v, Mode()
    modes = {"postgresql": ["type", "relation", "check"], "mysql": ["inline", "relation", "check"],
             "mssql": ["relation", "check"], "oracle": ["relation", "check"]}[dialect]
    for v, form in family_enums(thorough):
        for mode in modes:
            if form == "default" and mode == "relation":
                continue  # documented as unsupported
            if form == "list" and mode != "type" and dialect != "postgresql":
                continue
            if form == "struct" and mode == "relation" and dialect == "postgresql":
                continue
            yield f"enums-{form}", v, Mode(enum=mode)
            if mode == "relation" and (thorough or form == "extensible"):
                yield f"enums-{form}", v, Mode(enum=mode, initialize=True)


def explore(run: Run) -> None:
    D.install()
    families: dict[str, dict[str, int]] = {}
    items = []
    for d in D.DIALECTS:
        seen = set()
        families[d] = {}
        all_versions = []
        for name, v, m in versions(d, run.thorough):
            if (v, m) not in seen:
                seen.add((v, m))
                all_versions.append((name, v, m))
                families[d][name] = families[d].get(name, 0) + 1
        items.extend((d, all_versions[i:i + 40]) for i in range(0, len(all_versions), 40))
    run.bounds = {"graphs": families, "classes": 3}
    parallel(run, work, items)
    hashing(run)


def work(run: Run, item: tuple) -> None:
    dialect, batch = item
    for family, v, mode in batch:
        one(run, dialect, family, v, mode)


def closure(v: Version, names: tuple) -> set[tuple]:
    "Items that some classes need, directly or not."

    items = {(m.ns, i.name): i for m in v for i in m.items}
    out: set[tuple] = set()

    def visit(key: tuple) -> None:
        if key in out:
            return
        out.add(key)
        if isinstance(items[key], C):
            for f in items[key].fields:
                for k in universe.leaves(f.kind):
                    if k[0] in ("enum", "struct", "ref", "xenum"):
                        visit(k[1:3])

    for n in names:
        visit(n)
    return out


def one(run: Run, dialect: str, family: str, v: Version, mode: Mode) -> None:
    sig = f"{dialect}/{family}/{digest((v, mode))}"
    replay = {"dialect": dialect, "version": repr(v), "mode": repr(mode)}
    modules = build(v)
    entities = [(m.ns, i.name) for m in v for i in m.items if isinstance(i, C) and i.entity]
    run.state((family, v, mode))

    def generate(chosen: Optional[tuple], order: Optional[tuple] = None) -> tuple[Optional[str], Any]:
        generator = get_dialect(dialect).create_generator(options(v, mode))
        if chosen is not None:
            stmt = generator.create(tables=[getattr(modules[ns], name) for ns, name in chosen])
        else:
            stmt = generator.create(modules=[modules[ns] for ns in order])
        return stmt, generator

    requests: list[tuple[Optional[tuple], Optional[tuple]]] = []
    for n in range(1, len(entities) + 1):
        for subset in itertools.combinations(entities, n):
            requests.append((subset, None))
    requests.append((None, tuple(m.ns for m in v)))
    full = {(m.ns, i.name) for m in v for i in m.items}
    for chosen, order in requests:
        run.transition()
        try:
            stmt, generator = generate(chosen, order)
        except Exception as e:
            if family == "mutual-types" and "cycle" in str(e):
                # recorded finding
                run.violation(f"{dialect}/mutual-types/cycle", repr(e), replay)
                return
            run.violation(f"{sig}/{chosen or order}/generate/{type(e).__name__}", f"{e!r} for {chosen or order} of {v!r}", replay)
            return
        # same result in any order
        for other in itertools.permutations(chosen or order):
            if other == (chosen or order):
                continue
            stmt2, generator2 = generate(other if chosen else None, other if order else None)
            run.case()
            if stmt2 != stmt:
                run.violation(f"{sig}/{chosen or order}/order", f"listing {other} rather than {chosen or order} changes the script from\n{stmt}\nto\n{stmt2}", replay)
                return
        keep = closure(v, chosen) if chosen else full
        part = tuple(M(m.ns, tuple(i for i in m.items if (m.ns, i.name) in keep)) for m in v)
        if chosen:
            part = tuple(m for m in part if m.items)
        result = execute(run, dialect, part, v, mode, stmt, generator)
        run.case((dialect, v, mode, chosen), f"{dialect} {family} {'ok' if result is None else 'broken'}")
        if result is not None:
            where = f"{sig}/{chosen or order}/{result[0]}"
            if (dialect, family, mode.enum) == ("postgresql", "enums-both", "type") and re.fullmatch("create/type-.*-[EG]-does-not-exist", result[0]):
                where = f"{dialect}/enums-both/type-and-table"  # recorded finding
            run.violation(where, f"{result[1]}\nclasses: {v!r}\nrequested: {chosen or order}\nscript:\n{stmt}", replay)
            return
        run.trace()
    # equal classes of a different program give the same script
    stmt, _ = generate(None, tuple(m.ns for m in v))
    del universe._CACHE[v]
    modules = build(v)
    again, _ = generate(None, tuple(m.ns for m in v))
    if again != stmt:
        run.violation(f"{sig}/repeated", f"equal classes give\n{stmt}\nor\n{again}", replay)
    del universe._CACHE[v]


def execute(run: Run, dialect: str, part: Version, v: Version, mode: Mode, stmt: Optional[str], generator: Any) -> Optional[tuple[str, str]]:
    session = W.Session(dialect)
    initial = freeze(structure(session.server.db))

    async def script(ctx: Any, sql: Optional[str]) -> None:
        if sql:
            await ctx.execute(sql)

    async def create(ctx: Any, modules: dict) -> None:
        await script(ctx, stmt)

    try:
        session.run(v, mode, create)
    except Exception as e:
        return f"create/{W.error_head(e)}", f"creation script fails: {W.cause(e)!r}"
    for text in W.compare(session, part, mode, NS)[:1]:
        return "structure", text
    if mode.initialize:
        for (schema, name), values in Expected(part, dialect, mode).lookup.items():
            rows = session.server.db.schemas[schema].tables[name].rows
            if sorted(r["value"] for r in rows) != sorted(values):
                return "initialize", f"lookup table {name} has {rows!r}, expected {values!r}"
    run.state((dialect, session.state()))
    drop = generator.drop()

    async def remove(ctx: Any, modules: dict) -> None:
        await script(ctx, drop)

    try:
        session.run(v, mode, remove)
    except Exception as e:
        return f"drop/{W.error_head(e)}", f"script that drops everything fails: {W.cause(e)!r}\n{drop}"
    after = structure(session.server.db)
    if freeze(after) != initial:
        return "drop", f"after dropping everything there is {after!r}\n{drop}"
    return None


# independence of hash values ----------------------------------------------------------

PROGRAM = """
import sys
sys.path.insert(0, {root!r})
from mc.checks import p05
p05.digests(int(sys.argv[1]), int(sys.argv[2]))
"""


def selected(dialect: str) -> list[tuple[str, Version, Mode]]:
    out = []
    for n, (name, v, m) in enumerate(versions(dialect, False)):
        if n % 7 == 0 or len(v) == 3:
            out.append((name, v, m))
    return out


def digests(part: int, parts: int) -> None:
    for d in D.DIALECTS:
        for n, (name, v, m) in enumerate(selected(d)):
            if n % parts == part:
                generator = get_dialect(d).create_generator(options(v, m))
                stmt = generator.create(modules=[build(v)[x.ns] for x in v])
                print(d, n, digest((stmt, generator.drop())))


def hashing(run: Run) -> None:
    "Runs programs that differ in nothing but the seed of hash values."

    seeds = ("0", "1", "2") if not run.thorough else tuple(str(i) for i in range(8))
    procs = []
    for part in range(2):
        for seed in seeds:
            env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1")
            procs.append((part, seed, subprocess.Popen([sys.executable, "-c", PROGRAM.format(root=ROOT), str(part), "2"], env=env,
                                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    outputs: dict[int, dict[str, str]] = {}
    for part, seed, p in procs:
        out, err = p.communicate()
        if p.returncode != 0:
            raise HarnessError(err)
        outputs.setdefault(part, {})[seed] = out
    for part, by_seed in outputs.items():
        lines = {seed: out.splitlines() for seed, out in by_seed.items()}
        for rows in zip(*lines.values()):
            run.case(outcome="hash seeds")
            if len(set(rows)) != 1:
                d, n, _ = rows[0].split()
                v = selected(d)[int(n)]
                run.violation(f"{d}/hash-seed/{digest(v)}", f"programs with a different seed of hash values give different scripts for {v!r}",
                              {"dialect": d, "version": repr(v)})
