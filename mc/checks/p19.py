"""
P19: classes generated from a schema describe the same schema.

Source code that the library writes for classes is executed, and the classes that it defines must lead to the same script as
the original classes. Classes that the library makes from a description of tables must convert back to the same description,
and so must the classes that the source code of these defines.
"""

import dataclasses
import datetime
import decimal
import itertools
import keyword
import sys
import types
import uuid
from typing import Any, Iterator, Optional

from strong_typing.docstring import parse_type

from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import (
    CheckConstraint,
    Column,
    ConstraintReference,
    DiscriminatedConstraint,
    EnumTable,
    ForeignConstraint,
    Table,
    UniqueConstraint,
)
from pysqlsync.formation.sql_to_py import SqlConverter, SqlConverterOptions
from pysqlsync.model.data_types import SqlIntegerType, SqlVariableCharacterType
from pysqlsync.model.id_types import LocalId, QualifiedId
from pysqlsync.python_types import dataclass_to_code, module_to_code

from ..core import Run, parallel
from ..db import drivers as D
from ..db.universe import C, E, F, Kind, M, Mode, Version, build, difference, leaves, options

LEVEL = "model_checking"
RULE = (
    "source code: kind of field x optional x key x default x comment (thorough: pairs of these), dialects and modes; classes: "
    "the same as descriptions of tables, references within and between namespaces, and all ordered pairs (thorough: triples) "
    "of column names over an alphabet of identifiers, keywords and other text; non-trivial = a distinct description that the "
    "library accepts"
)
ASSUMPTIONS = [
    "classes refer to classes of the same module when their source code is written",
    "columns have types that some class leads to under the default mapping (no fixed-length strings, and no JSON)",
    "names of columns and constraints follow those of classes and fields; check constraints are not part of a description",
]

KINDS: list[Kind] = (
    [("int", n) for n in (1, 2, 4, 8, -1, -2, -4, -8)]
    + [("range", 0, 9), ("range", -5, 5), ("bool",), ("float", 4), ("float", 8), ("str",), ("str", 20), ("dec",), ("dec", 8, 3), ("dec", 5, 0)]
    + [("datetime",), ("datetime", 0), ("datetime", 3), ("bytes",), ("date",), ("time",), ("time", 0), ("time", 3), ("timedelta",), ("uuid",), ("ipv4",), ("ipv6",)]
    + [("literal", ("a", "b'")), ("enum", "app", "E"), ("xenum", "app", "X"), ("struct", "app", "S"), ("ref", "app", "R"), ("ref", "app", "U"), ("ref", "app", "T")]
    + [("list", ("int", 4)), ("list", ("str",)), ("set", ("str",)), ("list", ("bool",)), ("list", ("enum", "app", "E")), ("list", ("ref", "app", "R"))]
    + [("list", ("struct", "app", "S")), ("union", (("ref", "app", "R"), ("ref", "app", "Q")))]
)
UTC = datetime.timezone.utc
DEFAULTS: dict[Kind, list[Any]] = {
    ("int", 1): [5],
    ("int", 4): [0, -7],
    ("int", 8): [2**40],
    ("bool",): [True, False],
    ("float", 8): [1.5, 1e30],
    ("float", 4): [-0.25],
    ("str",): ["a'b\\", "", '"', "\n", "é"],
    ("str", 20): ["text"],
    ("dec", 8, 3): [decimal.Decimal("1.5")],
    ("date",): [datetime.date(2020, 1, 31)],
    ("datetime",): [datetime.datetime(2020, 1, 1, 2, 3), datetime.datetime(2020, 1, 1, 2, 3, 4, tzinfo=UTC), datetime.datetime(2020, 1, 1, 2, 3, 4, 500)],
    ("time",): [datetime.time(1, 2), datetime.time(1, 2, 3, 4)],
    ("time", 3): [datetime.time(1, 2, 3)],
    ("datetime", 0): [datetime.datetime(2020, 1, 1, 2, 3)],
    ("enum", "app", "E"): ["M_p"],
}
DOCS = (None, "Some text.", 'It\'s "quoted"; \\n ' + "long " * 40 + "end", 'Ends with "quotes"', "In " + "-".join(["part"] * 50))
NAMED = ("date", "datetime", "time", "timedelta", "int", "str", "list", "Decimal", "UUID", "field", "enum", "Optional", "Union", "id_", "T", "S", "PrimaryKey", "DEFAULT", "dataclasses", "type")

BASE = (
    E("E", ("p", "q'")),
    E("X", ("only",)),
    C("S", (F("x", ("int", 8)), F("y", ("str",), doc="Why."))),
    C("R", (F("id", ("int", 8), key="primary"),)),
    C("Q", (F("key", ("int", 8), key="primary"), F("n", ("int", 4), opt=True)), "Queue."),
    C("U", (F("id", ("uuid",), key="primary"),)),
)
NEUTRAL = "postgresql"  # its mapping has the fewest substitutions
WRITTEN = ("postgresql", "mysql", "mssql", "oracle", "redshift", "snowflake", "delta")

_COUNT = 0


def fresh(name: Optional[str] = None) -> types.ModuleType:
    global _COUNT
    _COUNT += 1
    module = types.ModuleType(name or f"mcg{_COUNT}")
    sys.modules[module.__name__] = module
    return module


def forget(*modules: types.ModuleType) -> None:
    for m in modules:
        sys.modules.pop(m.__name__, None)


def fields(kind: Kind) -> Iterator[F]:
    for key in (None, "unique", "identity", "primary"):
        if key in ("unique", "identity", "primary") and kind[0] in ("list", "set", "struct", "union", "json"):
            continue
        if key == "identity" and kind[0] not in ("int", "range"):
            continue
        for opt in (False, True):
            if opt and key in ("identity", "primary"):
                continue
            for n, default in enumerate([None, *DEFAULTS.get(kind, [])]):
                if default is not None and (opt or key in ("identity", "primary")) and n > 1:
                    continue
                if default is not None and key in ("identity", "primary"):
                    continue
                for doc in DOCS:
                    if doc is not None and (default is not None and n > 1 or key is not None):
                        continue
                    yield F("v", kind, opt=opt, key=key, default=default, doc=doc)


def used(items: tuple) -> tuple:
    "Items of the base to which others refer."

    by_name = {i.name: i for i in BASE}
    names = {k[2] for i in items if isinstance(i, C) for f in i.fields for k in leaves(f.kind) if len(k) == 3 and k[0] in ("enum", "xenum", "struct", "ref")}
    return tuple(by_name[n] for n in by_name if n in names) + items


def version(*columns: F, name: str = "T", doc: Optional[str] = None) -> Version:
    own = () if any(f.key in ("primary", "identity") for f in columns) else (F("id", ("int", 8), key="primary"),)
    # fields with defaults come last
    ordered = sorted(columns, key=lambda f: f.default is not None)
    return (M("app", used((C(name, own + tuple(ordered), doc),))),)


def shape(f: F) -> str:
    return "+".join([f.kind[0]] + [x for x in ("opt" if f.opt else None, f.key, "default" if f.default is not None else None, "doc" if f.doc else None) if x])


def generator(dialect: str, modules: dict[Any, Optional[str]], v: Version, mode: Mode) -> Any:
    opts = dataclasses.replace(options(v, mode), namespaces=modules)
    return get_dialect(dialect).get_generator_type()(opts)


def created(dialect: str, modules: dict[Any, Optional[str]], v: Version, mode: Mode) -> Any:
    g = generator(dialect, modules, v, mode)
    g.create(modules=list(modules))
    return g


def execute(code: str) -> types.ModuleType:
    m = fresh()
    exec(compile(code, f"<{m.__name__}>", "exec"), m.__dict__)
    return m


def members(cls: Any) -> Any:
    if dataclasses.is_dataclass(cls):
        return [(f.name, repr(f.default), f.default_factory is dataclasses.MISSING) for f in dataclasses.fields(cls)]
    return [(e.name, e.value) for e in cls]


def classes(m: types.ModuleType) -> dict[str, Any]:
    return {n: members(c) for n, c in m.__dict__.items() if isinstance(c, type) and c.__module__ == m.__name__}


# source code ---------------------------------------------------------------------------------------


def code(run: Run, dialect: str, v: Version, mode: Mode, what: str) -> None:
    "Classes defined by source code are those for which it was written."

    original = build(v)["app"]
    try:
        a = created(dialect, {original: "app"}, v, mode)
        script = generator(dialect, {original: "app"}, v, mode).create(modules=[original])
    except Exception:
        run.case(("refused", dialect, what))
        return
    run.state(("code", dialect, mode, v))
    run.case(("code", dialect, mode, v))
    run.transition()

    def wrong(head: str, message: str) -> None:
        run.violation(f"code/{dialect}/{what}/{head}", f"{dialect}, {v}: {message}"[:1500], {"dialect": dialect, "version": repr(v), "mode": repr(mode)})

    try:
        text = module_to_code(original)
        m = execute(text)
    except Exception as e:
        return wrong("invalid:" + type(e).__name__, repr(e))
    try:
        if classes(m) != classes(original):
            return wrong("members", f"{difference(classes(m), classes(original))[:2]} in\n{text}")
        try:
            b = created(dialect, {m: "app"}, v, mode)
            again = generator(dialect, {m: "app"}, v, mode).create(modules=[m])
        except Exception as e:
            return wrong("refused:" + type(e).__name__, f"{e!r} for\n{text}")
        have, want = describe(b.state, exact=True), describe(a.state, exact=True)
        if have != want:
            return wrong("description", f"{difference(have, want)[:2]} for\n{text}")
        if sorted(again.split(";\n")) != sorted(script.split(";\n")):
            return wrong("script", f"{again!r} instead of {script!r}")
        if module_to_code(m) != text:
            return wrong("again", f"the source code of\n{text}\nis\n{module_to_code(m)}")
        run.trace()
    finally:
        forget(m)


# features of classes that fields alone do not have
SHORT = ("Short.", "It's \\\"short\\\" \\\\n", "")
LONG = (None, "Longer text.", "Long. " + "Words follow words. " * 12 + "End.", "One.\n\n    Two.")
RETURNS = (None, "Nothing at all.")
PARAMS = (None, "The number.", "See " + "-".join(["number"] * 30))
INITIALIZERS = {
    "plain": "n: int = 3",
    "factory": "n: list[int] = dataclasses.field(default_factory=list)",
    "metadata": "n: int = dataclasses.field(default=3, metadata={'k': 'v', 'l': [1]})",
    "factory+metadata": "n: list[str] = dataclasses.field(default_factory=list, metadata={1: None})",
    "metadata only": "n: int = dataclasses.field(metadata={'k': 'it\\'s'})",
    "variable": "n: int\n    primary_key = 'id'\n    numbers = (1, 2)",
}
MEMBERS = {
    "strings": "a = 'x'\n    b = 'it\\'s'",
    "integers": "a = 1\n    b = -2",
    "names": "A_1 = 'A 1'\n    none = 'None'\n    class_ = 'class'",
}


def handwritten(run: Run, short: str, long: Optional[str]) -> None:
    "Classes with descriptions of several parts, factories, attributes of fields, and variables; enumerations with descriptions."

    for returns, param, (kind, initializer) in itertools.product(RETURNS, PARAMS, INITIALIZERS.items()):
        doc = "\n\n    ".join(x for x in (short, long) if x)
        fields = [f":param n: {param}"] if param else []
        fields += [f":returns: {returns}"] if returns else []
        if fields:
            doc += "\n\n    " + "\n    ".join(fields)
        if long is not None or fields:
            doc = "\n    " + doc + "\n    "
        text = f'@dataclasses.dataclass\nclass T:\n    """{doc}"""\n    id: PrimaryKey[int]\n    {initializer}\n'
        compare(run, text, f"class {kind}" + ("+long" if long else "") + ("+returns" if returns else "") + ("+param" if param else ""))
    for kind, values in MEMBERS.items():
        for described in (False, True):
            text = f'class E(enum.Enum):\n    """{short}"""\n    {values}\n'
            if described:
                text += "".join(f"E.{v.split(' =')[0].strip()}.__doc__ = 'Member \\\\ ' + str({i})\n" for i, v in enumerate(values.split("\n")))
            text += "@dataclasses.dataclass\nclass T:\n    id: PrimaryKey[int]\n    e: Optional[E]\n"
            compare(run, text, f"enumeration {kind}" + ("+described" if described else ""))


def features(cls: Any) -> Any:
    "What a class has besides names and types of fields."

    if dataclasses.is_dataclass(cls):
        ds = parse_type(cls)
        names = [f.name for f in dataclasses.fields(cls)]
        words = lambda text: " ".join(text.split()) if text else None  # noqa: E731
        return (
            words(ds.short_description), words(ds.long_description), {k: words(p.description) for k, p in ds.params.items()},
            words(ds.returns.description) if ds.returns else None,
            [(f.name, f.default_factory if f.default_factory is not dataclasses.MISSING else None, dict(f.metadata)) for f in dataclasses.fields(cls)],
            {k: v for k, v in vars(cls).items() if not k.startswith("__") and k not in names},
        )
    own = [getattr(e, "__dict__", {}).get("__doc__") for e in cls]
    return cls.__doc__ or None, own


def flowing(x: Any) -> Any:
    "A description in which line breaks are like spaces: long lines of a doc-string are wrapped."

    if isinstance(x, dict):
        return {k: flowing(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(map(flowing, x))
    return " ".join(x.split()) if isinstance(x, str) else x


def compare(run: Run, text: str, what: str) -> None:
    "Classes defined by source code are those for which it was written."

    head = "import dataclasses\nimport enum\nfrom typing import Optional\nfrom pysqlsync.model.key_types import PrimaryKey\n"
    original = execute(head + text)
    run.state(("handwritten", text))
    run.case(("handwritten", text))
    run.transition()

    def wrong(h: str, message: str) -> None:
        run.violation(f"code/{NEUTRAL}/{what}/{h}", f"{text}: {message}"[:1500], {"source": text})

    m = None
    try:
        try:
            code = module_to_code(original)
            m = execute(code)
        except Exception as e:
            return wrong("invalid:" + type(e).__name__, repr(e))
        if classes(m) != classes(original):
            return wrong("members", f"{difference(classes(m), classes(original))[:2]} in\n{code}")
        for n in classes(original):
            have, want = features(getattr(m, n)), features(getattr(original, n))
            if have != want:
                return wrong("features", f"{have!r} instead of {want!r} in\n{code}")
        try:
            have, want = (flowing(describe(generator(NEUTRAL, {x: "app"}, (), Mode()).converter.modules_to_catalog([x]), exact=True)) for x in (m, original))
        except Exception as e:
            return wrong("refused:" + type(e).__name__, f"{e!r} for\n{code}")
        if have != want:
            return wrong("description", f"{difference(have, want)[:2]} for\n{code}")
        if module_to_code(m) != code:
            return wrong("again", f"the source code of\n{code}\nis\n{module_to_code(m)}")
        run.trace()
    finally:
        forget(*(x for x in (original, m) if x is not None))


# classes -------------------------------------------------------------------------------------------


def constraint(c: Any, names: dict[str, str], exact: bool) -> Any:
    def col(ids: Any) -> tuple:
        return tuple(names.get(i.local_id, i.local_id) for i in ids)

    if isinstance(c, UniqueConstraint):
        return ("unique", col(c.unique_columns))
    if isinstance(c, ForeignConstraint):
        return ("foreign", col(c.foreign_columns), c.reference.table.quoted_id, tuple(i.local_id for i in c.reference.columns))
    if isinstance(c, DiscriminatedConstraint):
        return ("discriminated", col(c.foreign_columns), tuple(sorted((r.table.quoted_id, tuple(i.local_id for i in r.columns)) for r in c.references)))
    return repr(c)


def describe(catalog: Any, exact: bool = False) -> dict:
    "Description of the tables of a catalog as plain data."

    out: dict[str, Any] = {}
    for ns in catalog.namespaces.values():
        for t in ns.tables.values():
            cons = [constraint(c, {}, exact) for c in t.constraints.values() if exact or not isinstance(c, CheckConstraint)]
            cols = {c.name.local_id: (repr(c.data_type), c.nullable, c.default, c.identity, c.description) for c in t.columns.values()}
            out[t.name.quoted_id] = {
                "description": t.description,
                "primary": tuple(i.local_id for i in t.primary_key),
                "columns": cols,
                "constraints": tuple(sorted(cons, key=repr)),
            }
            if exact:
                out[t.name.quoted_id]["order"] = list(cols)
                if isinstance(t, EnumTable):
                    out[t.name.quoted_id]["values"] = list(t.values)
        if exact:
            for e in ns.enums.values():
                out[e.name.quoted_id + " enum"] = list(e.values)
            for s in ns.structs.values():
                out[s.name.quoted_id + " struct"] = (s.description, [(m.name.local_id, repr(m.data_type), m.description) for m in s.members.values()])
    return out


def round_trip(run: Run, v: Version, catalog: Any, mode: Mode, what: str, modules: dict[Optional[str], types.ModuleType]) -> None:
    "Classes made from tables, and those of their source code, have the same tables."

    want = describe(catalog)
    run.state(("classes", mode, v, tuple(m.__name__.split(".")[0][:3] for m in modules.values())))
    run.case(("classes", mode, v))
    run.transition()

    def wrong(head: str, message: str) -> None:
        run.violation(f"classes/{what}/{head}", f"{v}: {message}"[:1500], {"version": repr(v), "mode": repr(mode)})

    try:
        converter = SqlConverter(SqlConverterOptions(dict(modules)))
        made = [converter.table_to_dataclass(t) for ns in catalog.namespaces.values() for t in ns.tables.values()]
    except Exception as e:
        return wrong("fails:" + type(e).__name__, repr(e))
    try:
        g = created(NEUTRAL, {m: n for n, m in modules.items()}, v, mode)
    except Exception as e:
        return wrong("refused:" + type(e).__name__, repr(e) + " " + repr([[(f.name, f.type) for f in dataclasses.fields(c)] for c in made]))
    have = describe(g.state)
    if have != want:
        return wrong("description", f"{difference(have, want)[:3]}")
    for c in made:
        if getattr(sys.modules[c.__module__], c.__name__, None) is not c:
            return wrong("place", f"{c} is not in its module")
        dataclass_to_code(c)
    if len(modules) > 1:
        run.trace()
        return
    [(ns, m)] = modules.items()
    text = module_to_code(m)
    try:
        again = execute(text)
    except Exception as e:
        return wrong("code:" + type(e).__name__, f"{e!r} in\n{text}")
    try:
        g = created(NEUTRAL, {again: ns}, v, mode)
    except Exception as e:
        return wrong("code-refused:" + type(e).__name__, f"{e!r} for\n{text}")
    finally:
        forget(again)
    have = describe(g.state)
    if have != want:
        return wrong("code-description", f"{difference(have, want)[:3]} for\n{text}")
    run.trace()


def expressible(f: F, mode: Mode) -> bool:
    "If the type of the column follows from a class by the default mapping."

    tag = f.kind[0]
    if tag == "literal" or tag == "struct":
        return False
    if not mode.foreign and (tag in ("xenum", "union") or (tag == "enum" and mode.enum == "relation") or (tag == "list" and f.kind[1][0] == "ref")):
        return False  # other constraints are references nevertheless
    if tag in ("list", "set"):
        return f.kind[1][0] not in ("struct",) and not (f.kind[1][0] == "enum" and mode.enum == "relation")
    return True


def back(run: Run, v: Version, mode: Mode, what: str) -> None:
    original = build(v)["app"]
    try:
        g = created(NEUTRAL, {original: "app"}, v, mode)
    except Exception:
        run.case(("refused", what))
        return
    m = fresh()
    try:
        round_trip(run, v, g.state, mode, what, {"app": m})
    finally:
        forget(m)


# references ----------------------------------------------------------------------------------------

PLACES = ({"app": "mcga", "ref": "mcgb"}, {"app": "mcgp.app", "ref": "mcgp.ref"}, {"app": "mcgp.app", "ref": "mcgb"})


def references(run: Run) -> None:
    "References between tables of two namespaces, whose modules may be in packages."

    targets = [("app", "A"), ("app", "B"), ("ref", "C"), ("ref", "D")]
    kinds: list[Any] = [("ref", *t) for t in targets] + [("union", (("ref", *s), ("ref", *t))) for s, t in itertools.combinations(targets, 2)]
    for place, ka, kb, kc, opt in itertools.product(PLACES, [None, *kinds], [None, *kinds[:4]], [None, *kinds], (False, True)):
        def table(name: str, kind: Any) -> C:
            fs = (F("id", ("int", 8), key="primary"),)
            return C(name, fs + ((F("f", kind, opt=opt),) if kind else ()))

        if kc is not None and kc[0] == "union" and not run.thorough:
            continue
        v = (M("app", (table("A", ka), table("B", kb))), M("ref", (table("C", kc), table("D", None))))
        modules = build(v)
        try:
            g = created(NEUTRAL, {modules[n]: n for n in modules}, v, Mode())
        except Exception as e:
            run.violation("references/refused", f"{v}: {e!r}", repr(v))
            continue
        roots = []
        for n in {m.split(".")[0] for m in place.values() if "." in m}:
            root = fresh(n)
            root.__path__ = []  # type: ignore[attr-defined]
            roots.append(root)
        made = {}
        for n, name in place.items():
            made[n] = fresh(name)
            if "." in name:
                setattr(roots[0], name.split(".")[1], made[n])
        try:
            round_trip(run, v, g.state, Mode(), "references", made)
        finally:
            forget(*made.values(), *roots)


# names ---------------------------------------------------------------------------------------------

NAMES = ("a", "class", "class_", "class__", "for", "None", "match", "a b", "a_b", "a-b", "a.b", "1", "_1", "1a", "_", "é", "\u65e5\u672c", "it's", 'a"b', "$", "_a", "A", "_id", "self", "int", "T", "x y z", " ")
ALIKE = (("class", "class_", "class__"), ("a b", "a_b", "a-b", "a.b"), ("1", "_1", "_", "$"))


def names(run: Run, chosen: tuple[str, ...]) -> None:
    "Columns of any names are distinct fields."

    widths = [4, 2, 8, 4]
    columns = [Column(LocalId("key"), SqlVariableCharacterType(7), False)]
    for n, name in enumerate(chosen):
        columns.append(Column(LocalId(name), SqlIntegerType(widths[n]), n % 2 == 1, description=f"Number {n}."))
    other = QualifiedId("app", "Other")
    constraints = [UniqueConstraint(LocalId("uq"), (LocalId(chosen[0]),)), ForeignConstraint(LocalId("fk"), (LocalId(chosen[-1]),), ConstraintReference(other, (LocalId("id"),)))]
    table = Table(QualifiedId("app", "T"), columns, primary_key=(LocalId("key"),), constraints=constraints[: len(chosen)], description="Table.")
    target = Table(other, [Column(LocalId("id"), SqlIntegerType(widths[len(chosen) - 1]), False)], primary_key=(LocalId("id"),), constraints=[], description=None)
    run.state(("names", chosen))
    run.case(("names", chosen))
    run.transition()

    def wrong(head: str, message: str) -> None:
        run.violation(f"names/{head}/{'|'.join(chosen)}", f"columns {chosen}: {message}"[:1200], {"columns": chosen})

    m = fresh()
    again = None
    try:
        try:
            converter = SqlConverter(SqlConverterOptions({"app": m}))
            made = [converter.table_to_dataclass(target), converter.table_to_dataclass(table)]
        except Exception as e:
            return wrong("fails:" + type(e).__name__, repr(e))
        try:
            again = execute(module_to_code(m))
        except Exception as e:
            return wrong("code:" + type(e).__name__, repr(e))
        for stage, module, cls in (("class", m, made[1]), ("code", again, again.__dict__["T"])):
            found = [f.name for f in dataclasses.fields(cls)]
            if len(set(found)) != len(columns) or not all(f.isidentifier() and not keyword.iskeyword(f) for f in found):
                return wrong(stage + "-fields", f"fields {found}")
            for name, f in zip(chosen, found[1:]):
                if name.isidentifier() and not keyword.iskeyword(name) and f != name:
                    return wrong(stage + "-renamed", f"fields {found}")
            mapping = dict(zip(["key", *chosen], found))
            try:
                g = created(NEUTRAL, {module: "app"}, (M("app"),), Mode())
            except Exception as e:
                return wrong(stage + "-refused:" + type(e).__name__, repr(e))
            have = describe(g.state)['"app"."T"']
            want = {
                "description": "Table.",
                "primary": ("key",),
                "columns": {mapping[c.name.local_id]: (repr(c.data_type), c.nullable, c.default, c.identity, c.description) for c in columns},
                "constraints": tuple(sorted((constraint(c, mapping, False) for c in constraints[: len(chosen)]), key=repr)),
            }
            if have != want:
                return wrong(stage + "-description", f"{difference(have, want)[:2]}")
        run.trace()
    finally:
        forget(m, *([again] if again else []))


def work(run: Run, item: tuple) -> None:
    D.install()
    part = item[0]
    if part == "code":
        _, dialect, mode, kind = item
        for f in fields(kind):
            code(run, dialect, version(f, doc=DOCS[len(repr(f)) % len(DOCS)]), mode, shape(f))
    elif part == "pairs":
        _, kind, mode = item
        for k2 in KINDS:
            for o1, o2, d1, d2 in itertools.product((False, True), (False, True), (None, 0), (None, 0)):
                def one(name: str, k: Kind, opt: bool, d: Any) -> F:
                    return F(name, k, opt=opt, default=DEFAULTS[k][0] if d is not None and k in DEFAULTS else None, doc="Text." if opt else None)

                if (d1 is not None and kind not in DEFAULTS) or (d2 is not None and k2 not in DEFAULTS):
                    continue
                fs = (one("v", kind, o1, d1), one("w", k2, o2, d2))
                v = version(*fs)
                code(run, NEUTRAL, v, mode, "+".join(map(shape, fs)))
                if all(expressible(f, mode) for f in fs):
                    back(run, v, mode, "+".join(map(shape, fs)))
    elif part == "named":
        for name, kind, default in itertools.product(NAMED, (("date",), ("datetime",), ("int", 4), ("enum", "app", "E"), ("ref", "app", "R")), (False, True)):
            if default and kind not in DEFAULTS:
                continue
            f = F(name, kind, opt=not default, default=DEFAULTS[kind][0] if default else None)
            if default and name == "datetime" and kind[0].startswith("date"):
                continue  # not a class that can be written with the modules of values imported
            g = F("other", kind, opt=not default, default=DEFAULTS[kind][0] if default else None)
            code(run, NEUTRAL, version(f, g), Mode(), f"name {name}+{shape(f)}")
            if not (kind[0] == "enum"):
                back(run, version(f, g), Mode(), f"name {name}+{shape(f)}")
    elif part == "back":
        _, mode, kind = item
        for f in fields(kind):
            if expressible(f, mode):
                for doc in DOCS[:2]:
                    back(run, version(f, doc=doc), mode, shape(f))
    elif part == "handwritten":
        handwritten(run, *item[1:])
    elif part == "references":
        references(run)
    elif part == "names":
        _, first = item
        depth = 3 if run.thorough else 2
        for n in range(depth):
            for rest in itertools.permutations([x for x in NAMES if x != first], n):
                names(run, (first, *rest))
        # more columns whose names lead to the same name of a field
        for group in ALIKE:
            if first in group:
                for n in (2, 3):
                    for rest in itertools.permutations([x for x in group if x != first], n):
                        names(run, (first, *rest))


def explore(run: Run) -> None:
    D.install()
    items: list[tuple] = []
    modes = [Mode(), Mode(enum="relation", struct="json"), Mode(enum="check", struct="json", foreign=False), Mode(auto=True)]
    for kind in KINDS:
        for dialect in WRITTEN if run.thorough else ("postgresql", "mysql", "mssql"):
            items.append(("code", dialect, Mode(), kind))
        for mode in modes[1:]:
            items.append(("code", NEUTRAL, mode, kind))
        for mode in (Mode(enum="check", struct="json"), Mode(enum="relation", struct="json"), Mode(enum="relation", struct="json", foreign=False)):
            items.append(("back", mode, kind))
        if run.thorough:
            items.append(("pairs", kind, Mode(enum="check", struct="json")))
            items.append(("pairs", kind, Mode(enum="relation", struct="json")))
    items.append(("named",))
    items.append(("references",))
    items.extend(("handwritten", short, long) for short in SHORT for long in LONG if short or not long)
    items.extend(("names", n) for n in NAMES)
    parallel(run, work, items)
    run.bounds = {"kinds": len(KINDS), "names": len(NAMES), "columns_per_name_case": 3 if run.thorough else 2, "fields_varied": 2 if run.thorough else 1}
