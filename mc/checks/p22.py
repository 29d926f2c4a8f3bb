"""
P22: sample data fits the class it is generated for.

The generator's source of randomness is replaced with a chooser, and every sequence of choices within a bound on
deviations is explored: in each run all choices but a few have the same rank (lowest, middle, highest), and the few
others take every other rank at every position.
"""

import contextlib
import dataclasses
import datetime
import decimal
import enum
import itertools
import random
import sys
import types
import typing
import uuid
from ipaddress import IPv4Address, IPv6Address
from typing import Annotated, Any, Callable, Literal, Optional, Union

from strong_typing.auxiliary import (
    IntegerRange, MaxLength, MinLength, Precision,
    float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64,
)

import pysqlsync.data.generator as generator
from pysqlsync.model.key_types import PrimaryKey

from ..core import Run, parallel

LEVEL = "model_checking"
RULE = (
    "field type (about 60 kinds, also as optional) x key type x 0-3 records x all sequences of random choices with at most 2 "
    "deviations from lowest, middle or highest, one among the first 40 choices and two among the first 12 (thorough: 40); non-trivial = more than one "
    "record or a deviation"
)
ASSUMPTIONS = ["random bytes of UUIDs (which come from the operating system) are not controlled"]

NAME = "sampleclasses"


class Color(enum.Enum):
    RED = "red"
    GREEN = "green"
    BLUE = "blue"


class Single(enum.Enum):
    ONLY = "only one"


class Level(enum.Enum):
    LOW = 1
    HIGH = 2


@dataclasses.dataclass
class Other:
    id: PrimaryKey[int]
    name: str


@dataclasses.dataclass
class Keyed:
    id: PrimaryKey[uuid.UUID]
    name: str


@dataclasses.dataclass
class Point:
    x: int
    label: Annotated[str, MaxLength(4)]
    y: Optional[int]


@dataclasses.dataclass
class Outer:
    point: Point
    color: Color


# values that a field may have --------------------------------------------------------


def integer(low: int, high: int) -> Callable[[Any], bool]:
    return lambda v: type(v) is int and low <= v <= high


def text(low: int, high: Optional[int]) -> Callable[[Any], bool]:
    return lambda v: type(v) is str and low <= len(v) and (high is None or len(v) <= high)


def number(digits: int, scale: int) -> Callable[[Any], bool]:
    def check(v: Any) -> bool:
        if type(v) is not decimal.Decimal or not v.is_finite() or v < 0 and scale < 0:
            return False
        return abs(v) < decimal.Decimal(10) ** (digits - scale) and v == v.quantize(decimal.Decimal(1).scaleb(-scale))

    return check


def instance(typ: type) -> Callable[[Any], bool]:
    return lambda v: type(v) is typ


def anyof(*checks: Callable[[Any], bool]) -> Callable[[Any], bool]:
    return lambda v: any(c(v) for c in checks)


def values(*items: Any) -> Callable[[Any], bool]:
    return lambda v: any(type(v) is type(i) and v == i for i in items)


def items(check: Callable[[Any], bool], distinct: bool = False) -> Callable[[Any], bool]:
    return lambda v: type(v) is list and all(check(i) for i in v) and (not distinct or len({repr(i) for i in v}) == len(v))


def members(**checks: Callable[[Any], bool]) -> Callable[[Any], bool]:
    return lambda v: type(v) is dict and list(v) == list(checks) and all(c(v[n]) for n, c in checks.items())


def point(v: Any) -> bool:
    # a missing optional member is absent or null in JSON
    return members(x=integer(-(2**63), 2**63 - 1), label=text(0, 4), y=anyof(nothing, integer(-(2**63), 2**63 - 1)))(
        {**v, **({} if "y" in v else {"y": None})} if type(v) is dict else v
    )


def nothing(v: Any) -> bool:
    return v is None


def moment(v: Any) -> bool:
    return type(v) is datetime.datetime and v.tzinfo is not None and v.microsecond == 0 or type(v) is datetime.datetime


BIG = integer(-(2**63), 2**63 - 1)
KINDS: dict[str, tuple[Any, Callable[[Any], bool]]] = {
    "bool": (bool, instance(bool)),
    "int": (int, BIG),
    "int8": (int8, integer(-(2**7), 2**7 - 1)),
    "int16": (int16, integer(-(2**15), 2**15 - 1)),
    "int32": (int32, integer(-(2**31), 2**31 - 1)),
    "int64": (int64, BIG),
    "uint8": (uint8, integer(0, 2**8 - 1)),
    "uint16": (uint16, integer(0, 2**16 - 1)),
    "uint32": (uint32, integer(0, 2**32 - 1)),
    "uint64": (uint64, integer(0, 2**64 - 1)),
    "range": (Annotated[int, IntegerRange(-3, 2)], integer(-3, 2)),
    "range1": (Annotated[int, IntegerRange(7, 7)], integer(7, 7)),
    "float": (float, lambda v: type(v) is float and v == v and abs(v) < 1e300),
    "float32": (float32, lambda v: type(v) is float and abs(v) < 3e38),
    "float64": (float64, lambda v: type(v) is float and abs(v) < 1e300),
    "str": (str, text(0, None)),
    "str1": (Annotated[str, MaxLength(1)], text(0, 1)),
    "str40": (Annotated[str, MaxLength(40)], text(0, 40)),
    "str300": (Annotated[str, MaxLength(300)], text(0, 300)),
    "min3": (Annotated[str, MinLength(3)], text(3, None)),
    "min300": (Annotated[str, MinLength(300)], text(300, None)),
    "minmax": (Annotated[str, MinLength(2), MaxLength(5)], text(2, 5)),
    "fixed": (Annotated[str, MinLength(4), MaxLength(4)], text(4, 4)),
    "decimal": (decimal.Decimal, lambda v: type(v) is decimal.Decimal and v.is_finite()),
    "decimal3": (Annotated[decimal.Decimal, Precision(3)], number(3, 0)),
    "decimal5.2": (Annotated[decimal.Decimal, Precision(5, 2)], number(5, 2)),
    "decimal4.4": (Annotated[decimal.Decimal, Precision(4, 4)], number(4, 4)),
    "datetime": (datetime.datetime, moment),
    "date": (datetime.date, instance(datetime.date)),
    "time": (datetime.time, instance(datetime.time)),
    "uuid": (uuid.UUID, instance(uuid.UUID)),
    "ipv4": (IPv4Address, instance(IPv4Address)),
    "ipv6": (IPv6Address, instance(IPv6Address)),
    "ip": (Union[IPv4Address, IPv6Address], anyof(instance(IPv4Address), instance(IPv6Address))),
    "enum": (Color, values(*Color)),
    "enum1": (Single, values(*Single)),
    "enumint": (Level, values(*Level)),
    "extensible": (Union[Color, str], anyof(values(*Color), text(0, None))),
    "literal": (Literal["a", "bb"], values("a", "bb")),
    "literal1": (Literal["only"], values("only")),
    "struct": (Point, point),
    "outer": (Outer, members(point=point, color=values("red", "green", "blue"))),
    "reference": (Other, BIG),
    "keyed": (Keyed, instance(uuid.UUID)),
    "references": (Union[Other, "Again"], BIG),
    "list-int": (list[int], items(BIG)),
    "list-range": (list[int8], items(integer(-(2**7), 2**7 - 1))),
    "list-str": (list[str], items(text(0, None))),
    "list-enum": (list[Color], items(values("red", "green", "blue"))),
    "list-enum1": (list[Single], items(values("only one"))),
    "list-struct": (list[Point], items(point)),
    "set-int": (set[int], items(BIG)),
    "set-enum": (set[Color], items(values("red", "green", "blue"), True)),
}
UNSUPPORTED: dict[str, Any] = {"bytes": bytes, "timedelta": datetime.timedelta, "complex": complex, "dict": dict[str, int]}


@dataclasses.dataclass
class Again:
    id: PrimaryKey[int]


def make(key: Any, fields: list[tuple[str, Any]]) -> type:
    "A data class in a module in which forward references can be evaluated."

    module = sys.modules.get(NAME)
    if module is None:
        module = sys.modules[NAME] = types.ModuleType(NAME)
        module.__dict__.update({k: v for k, v in globals().items() if not k.startswith("_")})
    cls = dataclasses.make_dataclass("Sample", [("id", key), *fields])
    cls.__module__ = NAME
    setattr(module, "Sample", cls)
    return cls


# choices -----------------------------------------------------------------------------

LEVELS = 3


class Chooser(random.Random):
    "Takes each choice from a script of ranks: 0 is the lowest of all possible outcomes, 2 is the highest."

    def __init__(self, base: int, deviations: dict[int, int]) -> None:
        super().__init__(0)
        self.base = base
        self.deviations = deviations
        self.position = 0

    def rank(self) -> int:
        rank = self.deviations.get(self.position, self.base)
        self.position += 1
        return rank

    def random(self) -> float:
        return (0.0, 0.5, 1 - 2**-53)[self.rank()]

    def getrandbits(self, k: int) -> int:
        return (0, 1 << (k - 1) if k else 0, (1 << k) - 1)[self.rank()]

    def _randbelow(self, n: int) -> int:
        return (0, n // 2, n - 1)[self.rank()]


NAMES = (
    "random uniform triangular randint choice choices randrange sample shuffle getrandbits randbytes normalvariate gauss"
).split()


@contextlib.contextmanager
def choosing(chooser: Chooser) -> typing.Iterator[None]:
    originals = {n: getattr(random, n) for n in NAMES}
    undo: list[tuple[Any, str, Any]] = []
    for owner in (random, generator):
        for n, original in originals.items():
            for attr, value in list(vars(owner).items()):
                if value is original:
                    undo.append((owner, attr, value))
                    setattr(owner, attr, getattr(chooser, n))
    try:
        yield
    finally:
        for owner, attr, value in undo:
            setattr(owner, attr, value)


def scripts(points: int, limits: tuple[int, ...]) -> typing.Iterator[tuple[int, dict[int, int]]]:
    for base in range(LEVELS):
        others = [r for r in range(LEVELS) if r != base]
        for n, limit in enumerate(limits, 1):
            for at in itertools.combinations(range(min(points, limit)), n):
                for ranks in itertools.product(others, repeat=n):
                    yield base, dict(zip(at, ranks))


# the check ---------------------------------------------------------------------------


def examine(run: Run, name: str, key: str, cls: type, checks: dict[str, Callable[[Any], bool]], count: int, limits: tuple[int, ...]) -> None:
    def attempt(base: int, deviations: dict[int, int]) -> int:
        chooser = Chooser(base, deviations)
        replay = {"kind": name, "key": key, "count": count, "base": base, "deviations": deviations}
        outcome = ""
        sig = f"{name}/{key}"
        with run.limit(sig, 20.0), run.guard(sig, replay), choosing(chooser):
            objects = generator.random_objects(cls, count)
            problems = []
            if len(objects) != count or any(type(o) is not cls for o in objects):
                problems.append(f"{len(objects)} records instead of {count}")
            keys = [getattr(o, "id") for o in objects]
            if any(type(k) is not (int if key == "int" else uuid.UUID) for k in keys) or len(set(keys)) != len(keys):
                problems.append(f"keys {keys!r}")
            for o in objects:
                for field, check in checks.items():
                    if not check(getattr(o, field)):
                        problems.append(f"{field} = {getattr(o, field)!r:.300}")
            if problems:
                run.violation(sig, f"{'; '.join(problems[:3])} in {replay}", replay)
            outcome = repr([[getattr(o, f) for f in checks] for o in objects])
        run.transition(chooser.position)
        run.state((name, key, outcome))
        run.case((name, key, count, base, tuple(deviations.items())) if count > 1 or deviations else None, name)
        run.trace()
        return chooser.position

    points = max([attempt(base, {}) for base in range(LEVELS)] + [0])
    for base, deviations in scripts(points, limits):
        attempt(base, deviations)


def task(run: Run, item: tuple) -> None:
    what, name = item
    limits = (40, 40) if run.thorough else (40, 12)
    if what == "kind":
        typ, check = KINDS[name]
        for (kname, key), count in itertools.product((("int", PrimaryKey[int]), ("uuid", PrimaryKey[uuid.UUID])), range(4)):
            examine(run, name, kname, make(key, [("f", typ)]), {"f": check}, count, limits)
        if name != "references":
            examine(run, "optional-" + name, "int", make(PrimaryKey[int], [("f", Optional[typ])]), {"f": anyof(nothing, check)}, 2, limits)
    elif what == "pair":
        (ta, ca), (tb, cb) = KINDS[name[0]], KINDS[name[1]]
        cls = make(PrimaryKey[int], [("f", ta), ("g", Optional[tb])])
        examine(run, "+".join(name), "int", cls, {"f": ca, "g": anyof(nothing, cb)}, 2, (40,) if run.thorough else (4,))
    else:
        for fields in ([("f", UNSUPPORTED[name])], [("g", int), ("f", UNSUPPORTED[name])]):
            cls = make(PrimaryKey[int], fields)
            for count in range(3):
                run.case(("unsupported", name, count), "unsupported")
                try:
                    objects = generator.random_objects(cls, count)
                except Exception:
                    continue
                # a kind may become supported; its values are then of the type
                plain = typing.get_origin(UNSUPPORTED[name]) or UNSUPPORTED[name]
                if any(not isinstance(getattr(o, "f"), plain) for o in objects):
                    run.violation(f"unsupported/{name}", f"{objects!r:.300}")


def explore(run: Run) -> None:
    work: list[tuple] = [("kind", k) for k in KINDS] + [("unsupported", k) for k in UNSUPPORTED]
    plain = [k for k in KINDS if k != "references"]
    work += [("pair", p) for p in itertools.permutations(plain, 2)]
    parallel(run, task, work)
    run.bounds = {"records": 3, "deviations": 2, "choice_points": (40, 40 if run.thorough else 12)}
