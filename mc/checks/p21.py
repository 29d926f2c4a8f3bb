"""
P21: blocking driver calls return their own results without blocking the event loop.

Real threads under a controlled schedule: every blocking call waits at a gate, and the explorer decides in which order
operations start, calls complete or fail, and operations are cancelled. All interleavings are executed.
"""

import asyncio
import itertools
import threading
from typing import Any, Callable, Optional

import oracledb
import pyodbc
import redshift_connector

from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters
from pysqlsync.factory import get_dialect
from pysqlsync.util.dispatch import thread_dispatch

from ..core import HarnessError, Run, parallel

LEVEL = "model_checking"
RULE = (
    "every interleaving of start, completion (result or exception) and cancellation events of 2-3 concurrent "
    "operations of 1-3 blocking calls; through the dispatch decorator and through the connections of three blocking "
    "drivers; non-trivial = at least two operations overlap or one is cancelled"
)
ASSUMPTIONS = ["scheduling points are the boundaries of blocking driver calls; a driver call is atomic"]
PATIENCE = 20.0  # seconds a call waits at its gate before it concludes that the event loop is blocked


class Boom(Exception):
    pass


class Gatekeeper:
    "Holds back blocking calls until the controller lets them pass."

    def __init__(self, loop: asyncio.AbstractEventLoop) -> None:
        self.loop = loop
        self.main = threading.get_ident()
        self.waiting: dict[Any, tuple[Any, threading.Event]] = {}
        self.changed = asyncio.Event()
        self.log: list[tuple] = []
        self.trouble: list[str] = []
        self.lock = threading.Lock()

    def call(self, owner: Any, what: Any) -> None:
        "Called by a blocking function, in its thread."

        if threading.get_ident() == self.main:
            self.trouble.append(f"call {what} of {owner} runs in the thread of the event loop")
            return
        gate = threading.Event()
        with self.lock:
            if owner in self.waiting:
                self.trouble.append(f"calls {self.waiting[owner][0]} and {what} of {owner} overlap")
                return
            self.waiting[owner] = (what, gate)
            self.log.append((owner, what))
        self.loop.call_soon_threadsafe(self.changed.set)
        if not gate.wait(PATIENCE):
            self.trouble.append(f"event loop is blocked while call {what} of {owner} runs")
            with self.lock:
                self.waiting.pop(owner, None)

    def release(self, owner: Any) -> None:
        with self.lock:
            what, gate = self.waiting.pop(owner)
        gate.set()

    async def settle(self, condition: Callable[[], bool], what: str) -> bool:
        "Runs the event loop until a condition holds."

        async def wait():
            while not condition() and not self.trouble:
                self.changed.clear()
                if condition():
                    break
                await self.changed.wait()

        try:
            await asyncio.wait_for(wait(), PATIENCE)
        except asyncio.TimeoutError:
            self.trouble.append(f"no progress: {what}")
        return not self.trouble


class Scenario:
    """
    A set of concurrent operations.

    `start(i, keeper)` returns the coroutine of operation i; `calls(i)` the blocking calls it makes, in order;
    `expect(i)` its result: ("ok", value), or ("error", exception).
    """

    name: str
    count: int
    cancellable = True

    def prepare(self, keeper: Gatekeeper): ...
    def cleanup(self) -> None: ...
    def start(self, i: int, keeper: Gatekeeper): ...
    def calls(self, i: int) -> list[Any]: ...
    def check(self, i: int, result: tuple, raised: Optional[BaseException]) -> Optional[str]: ...


async def execute(scenario: Scenario, prefix: list[int], cancels: int) -> tuple[list[tuple[int, int]], list[tuple], list[str]]:
    """
    Runs one schedule: replays the choices of `prefix`, then always takes the first enabled event.

    Returns the choices made with the number of alternatives at each, the schedule, and what went wrong.
    """

    keeper = Gatekeeper(asyncio.get_running_loop())
    scenario.prepare(keeper)
    tasks: dict[int, asyncio.Task] = {}
    released: dict[int, int] = {i: 0 for i in range(scenario.count)}
    cancelled: set[int] = set()
    choices: list[tuple[int, int]] = []
    schedule: list[tuple] = []
    ticks = 0
    stop = False

    async def ticker():
        nonlocal ticks
        while not stop:
            ticks += 1
            await asyncio.sleep(0.001)

    other = asyncio.create_task(ticker())
    try:
        while True:
            enabled: list[tuple] = []
            for i in range(scenario.count):
                if i not in tasks:
                    enabled.append(("start", i))
                elif i in keeper.waiting:
                    enabled.append(("release", i))
            for i in range(scenario.count):
                if scenario.cancellable and len(cancelled) < cancels and i in tasks and i not in cancelled and not tasks[i].done():
                    enabled.append(("cancel", i))
            if not enabled:
                break
            depth = len(choices)
            choice = prefix[depth] if depth < len(prefix) else 0
            if choice >= len(enabled):
                raise HarnessError(f"schedule diverged on replay: {schedule}, {prefix}")
            choices.append((choice, len(enabled)))
            event, i = enabled[choice]
            schedule.append((event, i))
            if event == "start":
                tasks[i] = asyncio.create_task(scenario.start(i, keeper))
                tasks[i].add_done_callback(lambda _: keeper.changed.set())
            elif event == "release":
                released[i] += 1
                keeper.release(i)
            else:
                cancelled.add(i)
                tasks[i].cancel()
                for _ in range(5):
                    await asyncio.sleep(0)
                continue
            ok = await keeper.settle(lambda: i in keeper.waiting or tasks[i].done(), f"after {schedule}")
            if not ok:
                break
            # let unrelated tasks have their turn; a call in progress must not prevent that
            for _ in range(3):
                await asyncio.sleep(0)
        if not keeper.trouble:
            await keeper.settle(lambda: all(t.done() for t in tasks.values()), f"at the end of {schedule}")
    finally:
        stop = True
        for owner in list(keeper.waiting):
            keeper.release(owner)
        for t in tasks.values():
            if not t.done():
                t.cancel()
        await asyncio.wait([*tasks.values(), other], timeout=PATIENCE) if tasks else await other
        scenario.cleanup()

    trouble = list(keeper.trouble)
    if not trouble:
        for i in range(scenario.count):
            made = [what for owner, what in keeper.log if owner == i]
            want = scenario.calls(i)
            if i in cancelled:
                if made != want[: len(made)]:
                    trouble.append(f"cancelled operation {i} made calls {made}, of {want}")
                if not tasks[i].cancelled() and len(made) < len(want):
                    trouble.append(f"cancelled operation {i} ended without CancelledError")
                continue
            if made != want:
                trouble.append(f"operation {i} made calls {made}, expected {want}")
            if tasks[i].cancelled():
                trouble.append(f"operation {i} was cancelled by another")
                continue
            raised = tasks[i].exception()
            text = scenario.check(i, () if raised else (tasks[i].result(),), raised)
            if text:
                trouble.append(f"operation {i}: {text}")
        if ticks == 0:
            trouble.append("no other task ran")
    return choices, schedule, trouble


def explore_schedules(run: Run, scenario: Scenario, cancels: int) -> None:
    stack: list[list[int]] = [[]]
    first = True
    while stack:
        prefix = stack.pop()
        choices, schedule, trouble = asyncio.run(execute(scenario, prefix, cancels))
        if first:
            again = asyncio.run(execute(scenario, prefix, cancels))
            if (again[0], again[1]) != (choices, schedule) and not trouble and not again[2]:
                raise HarnessError(f"schedule is not reproducible: {schedule} vs {again[1]}")
            first = False
        run.transition(len(schedule))
        run.trace()
        for k in range(1, len(schedule) + 1):
            run.state((scenario.name, cancels, tuple(sorted(schedule[:k]))))
        overlap = any(a[0] == "start" and a[1] != b[1] and b[0] == "start" for a, b in zip(schedule, schedule[1:]))
        run.case((scenario.name, schedule) if overlap or any(e == "cancel" for e, _ in schedule) else None, scenario.name.split("/")[0])
        run.sample({"scenario": scenario.name, "schedule": schedule})
        if trouble:
            run.violation(f"{scenario.name}", "; ".join(trouble[:3]), {"scenario": scenario.name, "schedule": schedule, "choices": choices})
            return
        for depth in range(len(prefix), len(choices)):
            for alternative in range(1, choices[depth][1]):
                stack.append([c for c, _ in choices[:depth]] + [alternative])


# the decorator ---------------------------------------------------------------------------


class Decorated(Scenario):
    def __init__(self, shapes: list[list[str]], shared: bool) -> None:
        self.shapes = shapes
        self.shared = shared
        self.count = len(shapes)
        self.name = f"decorator/{'shared' if shared else 'separate'}/{'+'.join('-'.join(s) for s in shapes)}"

    def prepare(self, keeper: Gatekeeper) -> None:
        def blocking(owner: int, k: int, kind: str, *, extra: str):
            keeper.call(owner, (k, kind, extra))
            if kind == "error":
                raise Boom(owner, k)
            if kind == "none":
                return None
            return (owner, k, extra)

        one = thread_dispatch(blocking)
        self.functions = [one if self.shared else thread_dispatch(blocking) for _ in range(self.count)]

    def start(self, i: int, keeper: Gatekeeper):
        async def operation():
            results: list[Any] = []
            for k, kind in enumerate(self.shapes[i]):
                try:
                    results.append(await self.functions[i](i, k, kind, extra=f"x{i}"))
                except Boom as e:
                    results.append(e)
            return results

        return operation()

    def calls(self, i: int) -> list[Any]:
        return [(k, kind, f"x{i}") for k, kind in enumerate(self.shapes[i])]

    def check(self, i: int, result: tuple, raised: Optional[BaseException]) -> Optional[str]:
        if raised is not None:
            return f"raised {raised!r}"
        for k, (kind, value) in enumerate(zip(self.shapes[i], result[0])):
            if kind == "error":
                if not isinstance(value, Boom) or value.args != (i, k):
                    return f"call {k} returned {value!r}"
            elif value != (None if kind == "none" else (i, k, f"x{i}")):
                return f"call {k} returned {value!r}"
        return None


# connections ------------------------------------------------------------------------------


class Drivers(Scenario):
    """
    Operations on separate connections (one per operation) of a blocking driver, from opening to closing.
    """

    def __init__(self, dialect: str, kinds: list[str]) -> None:
        self.dialect = dialect
        self.kinds = kinds
        self.count = len(kinds)
        self.name = f"{dialect}/{'+'.join(kinds)}"

    def prepare(self, keeper: Gatekeeper) -> None:
        scenario = self

        class Cursor:
            def __init__(self, owner: int) -> None:
                self.owner = owner
                self.description = [("v", None)]
                self.rows: list[Any] = []

            def __enter__(self):
                return self

            def __exit__(self, *args):
                return None

            def execute(self, statement, *args, **kwargs):
                if "@@VERSION" in statement or "ALTER SESSION" in statement:
                    self.rows = [("version",)]
                    return self
                keeper.call(self.owner, statement.strip().rstrip(";"))
                if "FAIL" in statement:
                    raise Boom(self.owner)
                self.rows = [(f"row of {self.owner}",)]
                return self

            def executemany(self, statement, records, *args):
                records = [tuple(r) for r in records]
                keeper.call(self.owner, (statement.strip().rstrip(";"), tuple(records)))
                return self

            def setinputsizes(self, *args):
                pass

            def fetchall(self):
                return list(self.rows)

            def close(self):
                pass

        class Native:
            def __init__(self, owner: int) -> None:
                self.owner = owner

            def cursor(self):
                return Cursor(self.owner)

            def close(self):
                keeper.call(self.owner, "close")

        def connect(*args, **kwargs):
            # the user name identifies the operation
            text = repr((args, kwargs))
            owner = int(text.split("user-")[1][0])
            keeper.call(owner, "connect")
            return Native(owner)

        modules = {"mssql": pyodbc, "oracle": oracledb, "redshift": redshift_connector}
        self.module = modules[self.dialect]
        self.original = self.module.connect
        self.module.connect = connect  # type: ignore

        import pysqlsync.base

        self.batch_size = getattr(pysqlsync.base, "BATCH_SIZE", None)
        if self.batch_size is not None:
            pysqlsync.base.BATCH_SIZE = 2

    def cleanup(self) -> None:
        import pysqlsync.base

        self.module.connect = self.original  # type: ignore
        if self.batch_size is not None:
            pysqlsync.base.BATCH_SIZE = self.batch_size

    def start(self, i: int, keeper: Gatekeeper):
        async def operation():
            params = ConnectionParameters("h", 1, f"user-{i}", "p", "d", None)
            conn = get_dialect(self.dialect).create_connection(params, GeneratorOptions())
            kind = self.kinds[i]
            async with conn as ctx:
                if kind == "query":
                    return await ctx.query_all(str, f"SELECT {i}")
                if kind == "fail":
                    return await ctx.execute(f"FAIL {i}")
                return await ctx.execute_all(f"INSERT {i}", [(1,), (2,), (3,)])

        return operation()

    def calls(self, i: int) -> list[Any]:
        kind = self.kinds[i]
        middle: list[Any]
        if kind == "query":
            middle = [f"SELECT {i}"]
        elif kind == "fail":
            middle = [f"FAIL {i}"]
        else:
            middle = [(f"INSERT {i}", ((1,), (2,))), (f"INSERT {i}", ((3,),))]
            if self.batch_size is None:
                middle = [(f"INSERT {i}", ((1,), (2,), (3,)))]
        return ["connect", *middle, "close"]

    def check(self, i: int, result: tuple, raised: Optional[BaseException]) -> Optional[str]:
        kind = self.kinds[i]
        if kind == "fail":
            if raised is None or not isinstance(raised.__cause__, Boom) or raised.__cause__.args != (i,):
                return f"expected its own failure, got {result} {raised!r} from {raised.__cause__ if raised else None!r}"
            return None
        if raised is not None:
            return f"raised {raised!r}"
        if kind == "query" and result[0] != [f"row of {i}"]:
            return f"returned {result[0]!r}"
        return None


class DriversCancelled(Drivers):
    "Like above; after cancellation, the connection may still be closed."

    def calls(self, i: int) -> list[Any]:
        return super().calls(i)


def work(run: Run, item: tuple) -> None:
    what, args, cancels = item
    if what == "decorator":
        explore_schedules(run, Decorated(*args), cancels)
    else:
        scenario = Drivers(*args)
        explore_schedules(run, scenario, cancels)


def rejected(run: Run) -> None:
    async def coroutine():
        pass

    for value in (coroutine, 1, None, "x"):
        run.case(("rejected", repr(type(value))), "rejected")
        try:
            thread_dispatch(value)  # type: ignore
        except TypeError:
            continue
        run.violation("decorator/rejected", f"accepted {value!r}")


def explore(run: Run) -> None:
    kinds = ["ok", "error", "none"]
    items: list[tuple] = []
    for a, b in itertools.product(kinds, repeat=2):
        items.append(("decorator", ([[a], [b]], True), 0))
        items.append(("decorator", ([[a, b], [b, a]], True), 0))
    items.append(("decorator", ([["ok", "error", "ok"], ["ok", "ok", "none"]], False), 0))
    items.append(("decorator", ([["ok", "error"], ["error", "ok"], ["ok", "none"]], True), 0))
    items.append(("decorator", ([["ok"], ["error"], ["ok"]], False), 0))
    for shapes in ([["ok"], ["ok"]], [["ok", "ok"], ["error"]], [["ok", "ok"], ["ok", "ok"]]):
        items.append(("decorator", (shapes, True), 1))
    items.append(("decorator", ([["ok"], ["ok"]], True), 2))
    for dialect in ("mssql", "oracle", "redshift"):
        for pair in itertools.combinations_with_replacement(["query", "fail", "batches"], 2):
            items.append(("drivers", (dialect, list(pair)), 0))
    if run.thorough:
        items.append(("decorator", ([["ok"], ["error"], ["ok"], ["none"]], True), 0))
        items.append(("decorator", ([["ok", "ok"], ["error", "ok"], ["ok"]], True), 1))
        items.append(("decorator", ([["ok", "ok"], ["ok"]], True), 2))
        for dialect in ("mssql", "oracle", "redshift"):
            items.append(("drivers", (dialect, ["query", "query", "fail"]), 0))
    rejected(run)
    items.sort(key=lambda t: -len(repr(t)))
    parallel(run, work, items)
    run.bounds = {"operations": 4 if run.thorough else 3, "calls_per_operation": 4, "cancellations": 2}
