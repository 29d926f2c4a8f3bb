"""
P18: merging schema descriptions loses nothing and rejects contradictions.

All pairs and triples of catalogs over a small universe of objects, each in several variants, are merged in every order
and grouping, and compared with the union of plain dictionaries.
"""

import copy
import itertools
from typing import Any, Optional

from pysqlsync.formation.object_types import (
    Catalog,
    CheckConstraint,
    Column,
    ConstraintReference,
    EnumTable,
    EnumType,
    ForeignConstraint,
    Namespace,
    StructMember,
    StructType,
    Table,
    UniqueConstraint,
)
from pysqlsync.model.data_types import SqlIntegerType, SqlVariableCharacterType
from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

from ..core import Run

LEVEL = "model_checking"
RULE = (
    "catalogs with every subset of <=3 objects out of a universe of 7 objects in 2 namespaces (each in 2-9 variants) "
    "and optional empty namespaces; every ordered pair, and every triple in every order and grouping; non-trivial = "
    "both sides have objects"
)
ASSUMPTIONS: list[str] = []

I, V = LocalId("id"), LocalId("value")


def qid(ns: str, name: str, flat: bool):
    return PrefixedId(ns or None, name) if flat else QualifiedId(ns or None, name)


def table(ns: str, name: str, variant: int, flat: bool) -> Table:
    columns = [Column(I, SqlIntegerType(8), False), Column(V, SqlVariableCharacterType(), True)]
    constraints: list[Any] = [UniqueConstraint(LocalId("uq"), (V,))]
    pk: tuple = (I,)
    description: Optional[str] = None
    if variant == 1:
        columns[1] = Column(V, SqlVariableCharacterType(10), True)
    elif variant == 2:
        columns[1] = Column(V, SqlVariableCharacterType(), False)
    elif variant == 3:
        columns[1] = Column(V, SqlVariableCharacterType(), True, "'x'")
    elif variant == 4:
        columns[0] = Column(I, SqlIntegerType(8), False, None, True)
    elif variant == 5:
        description = "text"
    elif variant == 6:
        pk = (V,)
    elif variant == 7:
        constraints = [CheckConstraint(LocalId("uq"), "id > 0")]
    elif variant == 8:
        constraints = [ForeignConstraint(LocalId("fk"), (V,), ConstraintReference(qid("b", "T", flat), (I,)))]
    elif variant == 9:
        columns.append(Column(LocalId("extra"), SqlIntegerType(2), True))
    elif variant == 10:
        columns[1] = Column(V, SqlVariableCharacterType(), True, description="column text")
    return Table(qid(ns, name, flat), columns, primary_key=pk, constraints=constraints, description=description)


def make(ns: str, kind: str, name: str, variant: int, flat: bool) -> Any:
    if kind == "enum":
        return EnumType(qid(ns, name, flat), [["a", "b"], ["a", "c"], ["b", "a"], ["a"]][variant])
    if kind == "struct":
        members = [
            [StructMember(I, SqlIntegerType(4)), StructMember(V, SqlIntegerType(4))],
            [StructMember(I, SqlIntegerType(8)), StructMember(V, SqlIntegerType(4))],
            [StructMember(I, SqlIntegerType(4))],
            [StructMember(I, SqlIntegerType(4), "text"), StructMember(V, SqlIntegerType(4))],
        ][variant % 4]
        return StructType(qid(ns, name, flat), members, "text" if variant == 4 else None)
    if kind == "enumtable":
        return EnumTable(
            qid(ns, name, flat), [Column(I, SqlIntegerType(4), False, None, True), Column(V, SqlVariableCharacterType(), False)],
            values=[["a", "b"], ["a", "c"]][variant], primary_key=(I,), constraints=[UniqueConstraint(LocalId("uq"), (V,))],
        )
    return table(ns, name, variant, flat)


UNIVERSE: list[tuple[str, str, str, int]] = [
    ("a", "table", "T", 11), ("b", "table", "T", 2), ("a", "enum", "T", 4), ("b", "enum", "E", 2),
    ("a", "struct", "S", 5), ("b", "struct", "T", 2), ("a", "enumtable", "L", 2), ("a", "table", "U", 1),
]


def build(description: dict, empty: tuple[str, ...], flat: bool) -> Catalog:
    spaces: dict[str, dict[str, list]] = {}
    for ns in empty:
        spaces[ns] = {"enum": [], "struct": [], "table": []}
    for (ns, kind, name), variant in description.items():
        space = spaces.setdefault(ns, {"enum": [], "struct": [], "table": []})
        space["table" if kind == "enumtable" else kind].append(make(ns, kind, name, variant, flat))
    return Catalog([
        Namespace(LocalId(ns), enums=s["enum"], structs=s["struct"], tables=s["table"]) for ns, s in spaces.items()
    ])


def freeze(value: Any) -> Any:
    "Plain data of an object, attribute by attribute; the order of collections of named objects does not matter."

    if isinstance(value, (str, int, float, bool, bytes)) or value is None:
        return (type(value).__name__, value)
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, tuple(freeze(v) for v in value))
    if isinstance(value, (set, frozenset)):
        return ("set", tuple(sorted((freeze(v) for v in value), key=repr)))
    if hasattr(value, "items") and callable(value.items):
        return ("dict", tuple(sorted(((k, freeze(v)) for k, v in value.items()), key=lambda t: t[0])))
    return (type(value).__name__, tuple((k, freeze(v)) for k, v in sorted(vars(value).items())))


def summary(catalog: Catalog) -> Any:
    result = {}
    for name, ns in catalog.namespaces.items():
        result[name] = (
            {k: freeze(v) for k, v in ns.enums.items()},
            {k: freeze(v) for k, v in ns.structs.items()},
            {k: freeze(v) for k, v in ns.tables.items()},
        )
    return result


def union(parts: list[tuple[dict, tuple[str, ...]]]) -> Optional[tuple[dict, tuple[str, ...]]]:
    result: dict = {}
    empty: list[str] = []
    for objects, spaces in parts:
        for key, variant in objects.items():
            if result.setdefault(key, variant) != variant:
                return None
        empty.extend(spaces)
    return result, tuple(sorted(set(empty)))


def normal(variant: int, kind: str) -> int:
    return variant


def merged(catalogs: list[Catalog], grouping: str) -> Catalog:
    if len(catalogs) == 2:
        a, b = catalogs
        a.merge(b)
        return a
    a, b, c = catalogs
    if grouping == "left":
        a.merge(b)
        a.merge(c)
    else:
        b.merge(c)
        a.merge(b)
    return a


def scribble(catalog: Catalog) -> None:
    "Changes everything there is in a schema description, in place."

    for ns in catalog.namespaces.values():
        for e in ns.enums.values():
            e.values.append("scribbled")
        for s in ns.structs.values():
            s.members.add(StructMember(LocalId("scribbled"), SqlIntegerType(2)))
            s.description = "scribbled"
            for m in s.members.values():
                m.description = "scribbled"
        for t in ns.tables.values():
            t.description = "scribbled"
            t.constraints.add(UniqueConstraint(LocalId("scribbled"), (I,)))
            for c in t.constraints.values():
                if isinstance(c, UniqueConstraint):
                    c.unique_columns = (V, I)
            for c in t.columns.values():
                c.nullable = not c.nullable
                c.description = "scribbled"
                if isinstance(c.data_type, SqlIntegerType):
                    c.data_type.width = 1
            t.columns.add(Column(LocalId("scribbled"), SqlIntegerType(2), True))
            if isinstance(t, EnumTable):
                t.values.append("scribbled")
        ns.enums.add(EnumType(QualifiedId("x", "scribbled"), []))
        ns.tables.add(table("x", "scribbled", 0, False))
    catalog.namespaces.add(Namespace(LocalId("scribbled")))


def check(run: Run, parts: list[tuple[dict, tuple[str, ...]]], flat: bool, grouping: str) -> None:
    catalogs = [build(objects, empty, flat) for objects, empty in parts]
    before = [summary(c) for c in catalogs]
    replay = {"parts": repr(parts), "flat": flat, "grouping": grouping}
    expect = union(parts)
    run.transition(len(parts) - 1)
    key = (tuple(tuple(sorted(p[0].items())) + p[1] for p in parts), flat, grouping)
    run.state(key)
    run.case(key if sum(1 for p in parts if p[0]) > 1 else None, "conflict" if expect is None else "union")
    kinds = "+".join(sorted({k for objects, _ in parts for _, k, _ in objects}))
    try:
        result = merged(catalogs, grouping)
    except Exception as e:
        run.trace()
        if expect is not None:
            run.violation(f"rejected/{kinds}", f"merge failed although there is no contradiction: {e!r}; {replay}", replay)
        for c, b in list(zip(catalogs, before))[1 if grouping == "left" else 2:]:
            if summary(c) != b:
                run.violation(f"source-changed/{kinds}", f"failed merge changed its source: {replay}", replay)
        return
    if expect is None:
        run.violation(f"contradiction/{kinds}", f"contradiction went unnoticed: {replay}", replay)
        return
    wanted = summary(build(expect[0], expect[1], flat))
    got = summary(result)
    if got != wanted:
        run.violation(f"union/{kinds}", f"merged {got}, expected {wanted}; {replay}", replay)
        return
    sources = list(zip(catalogs, before))[1 if grouping == "left" else 2:]
    for c, b in sources:
        if summary(c) != b:
            run.violation(f"source-changed/{kinds}", f"merge changed its source: {replay}", replay)
    # later changes do not show through
    scribble(catalogs[1])
    if summary(result) != wanted:
        run.violation(f"shared/{kinds}", f"change of the source shows through: {replay}", replay)
    target = build(parts[0][0], parts[0][1], flat)
    source = build(parts[1][0], parts[1][1], flat)
    target.merge(source)
    b = summary(source)
    scribble(target)
    if summary(source) != b:
        run.violation(f"shared/{kinds}", f"change of the result shows through in the source: {replay}", replay)
    run.trace()
    run.sample({"parts": repr(parts), "outcome": "union"})


def explore(run: Run) -> None:
    def catalogs(limit: int, variants: int):
        for n in range(limit + 1):
            for chosen in itertools.combinations(UNIVERSE, n):
                for vs in itertools.product(*(range(min(u[3], variants)) for u in chosen)):
                    yield {u[:3]: v for u, v in zip(chosen, vs)}

    # every variant of every object against every other, alone and next to something else
    for ns, kind, name, count in UNIVERSE:
        for a, b in itertools.product(range(count), repeat=2):
            for extra in ({}, {("b", "table", "T"): 1}, {("a", "enum", "T"): 0}):
                for flat in (False, True):
                    base = {k: v for k, v in extra.items() if k != (ns, kind, name)}
                    for left, right in (({}, base), (base, {}), (base, base)):
                        check(run, [({**left, (ns, kind, name): a}, ()), ({**right, (ns, kind, name): b}, ())], flat, "left")
                        check(run, [({(ns, kind, name): a, **left}, ()), ({(ns, kind, name): b, **right}, ())], flat, "left")

    # all pairs of small catalogs
    size = 3 if run.thorough else 2
    menu = list(catalogs(size, 2))
    for a, b in itertools.product(menu, repeat=2):
        if len(a) + len(b) > 5 - (not run.thorough):
            continue
        check(run, [(a, ()), (b, ())], False, "left")
    # empty namespaces
    small = list(catalogs(1, 1))
    for a, b in itertools.product(small, repeat=2):
        for ea, eb in itertools.product([(), ("a",), ("b", "c"), ("",)], repeat=2):
            check(run, [(a, ea), (b, eb)], False, "left")
    # all triples of one- and two-object catalogs, in both groupings
    small = list(catalogs(1, 2))
    pairs = list(catalogs(2, 1)) if run.thorough else small
    for a, b, c in itertools.product(small, small, pairs):
        for grouping in ("left", "right"):
            check(run, [(a, ()), (b, ()), (c, ())], False, grouping)
    # merging into itself
    for a in menu[:200]:
        c = build(a, (), False)
        other = copy.deepcopy(c)
        b = summary(c)
        c.merge(other)
        run.case(("self", repr(a)), "self")
        if summary(c) != b:
            run.violation("self", f"merging an equal description changes it: {a}", a)
    run.bounds = {"objects_per_catalog": size, "universe": len(UNIVERSE), "table_variants": 11}
