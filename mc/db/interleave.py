"""
Controlled interleavings: several programs that use the same server run side by side, and a scheduler decides which one takes
the next step. A step extends from one request to the server to the next. All schedules are enumerated, depth first. Writers are
deterministic: what one does next follows from the results that it has received. Hence a schedule is cut short when it arrives
at contents of the database and results received by each writer that another schedule has gone through.
"""

import asyncio
import concurrent.futures
import contextvars
import threading
from typing import Any, Callable, Iterator, Optional, Sequence

from . import drivers as D

WRITER: contextvars.ContextVar[int] = contextvars.ContextVar("writer")
LOCAL = threading.local()


class Stuck(Exception):
    pass


class Pruned(Exception):
    "The run has arrived at a state that has been explored."


def contents(server: D.Server) -> Any:
    "What later requests can tell about the database."

    return tuple(
        (ns, name, t.next_id, tuple(repr(sorted(r.items())) for r in t.rows))
        for ns, schema in sorted(server.db.schemas.items(), key=lambda i: str(i[0]))
        for name, t in sorted(schema.tables.items())
    )


class Scheduler:
    "Runs programs one step at a time, in the order of a schedule."

    def __init__(self, server: D.Server, prefix: Sequence[int], observe: Callable[[], None], visited: Optional[set] = None) -> None:
        self.server = server
        self.visited = visited
        self.history: list[Any] = []
        self.current = -1
        self.pruned = False
        self.prefix = list(prefix)
        self.observe = observe
        self.pending: dict[int, Callable[[], None]] = {}
        self.choices: list[tuple[int, tuple[int, ...]]] = []  # (chosen, enabled)
        self.trace: list[tuple[int, str]] = []
        self.labels: dict[int, str] = {}

    def register(self, writer: int, label: str, grant: Callable[[], None]) -> None:
        self.pending[writer] = grant
        self.labels[writer] = label
        self.wake.set()

    async def gate(self, cid: int, what: str) -> None:
        future = self.loop.create_future()
        self.register(WRITER.get(), what, lambda: None if future.done() else future.set_result(None))
        await future

    def before(self, kind: str, text: str) -> None:
        "Called ahead of each statement; blocks if in the thread of a writer."

        writer = getattr(LOCAL, "writer", None)
        if writer is None:
            return
        event = threading.Event()
        self.loop.call_soon_threadsafe(self.register, writer, text, event.set)
        if not event.wait(60):
            raise Stuck()
        if self.pruned:
            raise Pruned()

    def recorded(self, method: Callable) -> Callable:
        "Has what a request results in written to the history of the writer that made it."

        def wrapped(*args: Any, **kwargs: Any) -> Any:
            try:
                result = method(*args, **kwargs)
            except Exception as e:
                if self.current >= 0:
                    self.history[self.current] = hash((self.history[self.current], repr(e)))
                raise
            if self.current >= 0:
                self.history[self.current] = hash((self.history[self.current], repr(result)))
            return result

        return wrapped

    def submit(self, pool: Any, fn: Callable, /, *args: Any, **kwargs: Any) -> concurrent.futures.Future:
        future: concurrent.futures.Future = concurrent.futures.Future()
        writer = WRITER.get(None)

        def body() -> None:
            LOCAL.writer = writer
            future.set_running_or_notify_cancel()
            try:
                result = fn(*args, **kwargs)
            except BaseException as e:
                future.set_exception(e)
            else:
                future.set_result(result)

        threading.Thread(target=body, daemon=True).start()
        return future

    async def run(self, programs: Sequence[Callable[[], Any]]) -> list[Optional[BaseException]]:
        "Runs programs to completion; returns the error that each ended with."

        self.loop = asyncio.get_running_loop()
        self.wake = asyncio.Event()
        errors: list[Optional[BaseException]] = [None] * len(programs)
        live = set(range(len(programs)))
        self.history = [0] * len(programs)

        async def body(i: int) -> None:
            WRITER.set(i)
            try:
                await programs[i]()
            except Exception as e:
                errors[i] = e
            live.discard(i)
            self.wake.set()

        saved = self.server.gate, self.server.before, concurrent.futures.ThreadPoolExecutor.submit
        self.server.gate, self.server.before = self.gate, self.before
        scheduler = self
        concurrent.futures.ThreadPoolExecutor.submit = lambda pool, fn, /, *a, **k: scheduler.submit(pool, fn, *a, **k)  # type: ignore
        methods = ("statement", "many", "copy", "query")
        for name in methods:
            setattr(self.server, name, self.recorded(getattr(self.server, name)))
        tasks = []
        try:
            for i in range(len(programs)):  # each runs up to its first request by itself
                tasks.append(asyncio.ensure_future(body(i)))
                await self.settle(lambda: i in self.pending or i not in live)
            while True:
                await self.settle(lambda: set(self.pending) == live)
                if not live:
                    break
                self.observe()
                enabled = tuple(sorted(self.pending))
                n = len(self.choices)
                if self.visited is not None and len(enabled) > 1 and n >= len(self.prefix):
                    key = (tuple(self.history), tuple(sorted(self.labels.items())), enabled, contents(self.server))
                    if key in self.visited:
                        self.pruned = True
                        break
                    self.visited.add(key)
                chosen = self.prefix[n] if n < len(self.prefix) else enabled[0]
                self.choices.append((chosen, enabled))
                self.trace.append((chosen, self.labels[chosen].split("\n")[0][:60]))
                self.current = chosen
                self.pending.pop(chosen)()
            if not self.pruned:
                self.observe()
        finally:
            self.current = -1
            for name in methods:
                delattr(self.server, name)
            self.server.gate, self.server.before, concurrent.futures.ThreadPoolExecutor.submit = saved  # type: ignore
            for t in tasks:
                t.cancel()
            if self.pruned:
                for grant in self.pending.values():
                    grant()
                await asyncio.gather(*tasks, return_exceptions=True)
        return errors

    async def settle(self, ready: Callable[[], bool]) -> None:
        while not ready():
            self.wake.clear()
            if ready():
                return
            try:
                await asyncio.wait_for(self.wake.wait(), 60)
            except asyncio.TimeoutError:
                raise Stuck() from None


def next_prefix(choices: list[tuple[int, tuple[int, ...]]], fixed: int = 0) -> Optional[list[int]]:
    "The schedule that follows in depth-first order."

    for n in range(len(choices) - 1, fixed - 1, -1):
        chosen, enabled = choices[n]
        rest = [e for e in enabled if e > chosen]
        if rest:
            return [c for c, _ in choices[:n]] + [rest[0]]
    return None


def schedules(once: Callable[[list[int]], list[tuple[int, tuple[int, ...]]]]) -> Iterator[int]:
    "Calls `once(prefix)` for each schedule; it returns the choices made."

    prefix: Optional[list[int]] = []
    count = 0
    while prefix is not None:
        choices = once(prefix)
        count += 1
        yield count
        prefix = next_prefix(choices)
