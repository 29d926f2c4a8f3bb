"""
Common runner of all checks: counters, evidence, known findings, violations with replayable artefacts.

Exit codes: 0 (property held on everything explored) and 1 (violated, with a VIOLATION line). Anything else is an
error of the machinery.
"""

import collections
import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from typing import Any, Callable, Iterable, Optional

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
KNOWN_FILE = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
MAX_VIOLATIONS = int(os.environ.get("VERIF_MAX_VIOLATIONS", "5"))


class HarnessError(Exception):
    "A defect of the machinery, never of the code under test."


class Stop(Exception):
    "Raised to end exploration early once enough violations have been collected."


class CaseTimeout(BaseException):
    "A single case ran far longer than any case takes; the code under test does not terminate on it."


def digest(value: Any) -> str:
    return hashlib.sha1(repr(value).encode("utf-8", "backslashreplace")).hexdigest()[:12]


def load_known() -> dict[str, dict[str, str]]:
    """
    Reads lines `KNOWN-FINDING: property=<id> sig=<signature> <what fails>`; returns {property: {signature: what}}.

    Lines that start with `fixed:` suppress nothing and are ignored here.
    """

    known: dict[str, dict[str, str]] = collections.defaultdict(dict)
    if not os.path.exists(KNOWN_FILE):
        return known
    with open(KNOWN_FILE, encoding="utf-8") as f:
        for line in f:
            line = line.strip()
            if not line.startswith("KNOWN-FINDING:"):
                continue
            _, prop, sig, what = line.split(" ", 3)
            known[prop.removeprefix("property=")][sig.removeprefix("sig=")] = what
    return known


def frames_in_repo(tb) -> bool:
    "True if the innermost frames of a traceback run code under test."

    prefix = REPO + os.sep
    for frame in traceback.extract_tb(tb):
        if os.path.realpath(frame.filename).startswith(prefix):
            return True
    return False


class Run:
    "State of one run of one check."

    def __init__(self, prop: str, tier: str, seed: int, level: str) -> None:
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.thorough = tier == "thorough"
        self.started = time.monotonic()
        self.states: set = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial: set = set()
        self.outcomes: collections.Counter = collections.Counter()
        self.samples: list[Any] = []
        self.rule = ""
        self.bounds: dict[str, Any] = {}
        self.assumptions: list[str] = []
        self.exhaustive = True
        self.violations: list[tuple[str, str, Any]] = []
        self.sigs: set[str] = set()
        self.known = load_known().get(prop, {})
        self.known_seen: collections.Counter = collections.Counter()
        self.extra: dict[str, Any] = {}

    # counters -----------------------------------------------------------------

    def state(self, key: Any) -> bool:
        "Registers a state; true if it is new."

        k = key if isinstance(key, str) and len(key) < 64 else digest(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def transition(self, n: int = 1) -> None:
        self.transitions += n

    def trace(self, n: int = 1) -> None:
        "A path of the model was replayed on (or produced by) the implementation and agreed with it."

        self.traces += n

    def case(self, key: Any = None, outcome: Any = None) -> None:
        "An execution or input was evaluated; `key` identifies it if it is non-trivial."

        self.evaluations += 1
        if key is not None:
            self.nontrivial.add(digest(key))
        if outcome is not None:
            self.outcomes[str(outcome)] += 1

    def sample(self, value: Any, limit: int = 6) -> None:
        if len(self.samples) < limit:
            self.samples.append(value)

    # violations ---------------------------------------------------------------

    def violation(self, sig: str, message: str, replay: Any = None) -> None:
        """
        Reports that the property is broken.

        :param sig: Identifies the failing input, call site or history (no spaces); matched against known findings.
        """

        sig = sig.replace(" ", "_")
        if sig in self.known:
            self.known_seen[sig] += 1
            return
        if sig in self.sigs:
            return
        self.sigs.add(sig)
        self.violations.append((sig, message, replay))
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop()

    @contextlib.contextmanager
    def limit(self, sig: str, seconds: float = 60.0):
        "Bounds the duration of a single case (which normally takes milliseconds)."

        def handler(signum, frame):
            raise CaseTimeout(sig)

        old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            yield
        except CaseTimeout:
            self.violation(sig + "/nontermination", f"no result after {seconds} s", {"case": sig})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    @contextlib.contextmanager
    def guard(self, sig: str, replay: Any = None):
        "Reports an unexpected exception raised by the code under test as a violation."

        try:
            yield
        except (Stop, HarnessError, KeyboardInterrupt):
            raise
        except Exception as e:
            if not frames_in_repo(e.__traceback__):
                raise
            text = "".join(traceback.format_exception(e))[-3000:]
            self.violation(f"{sig}/unexpected-{type(e).__name__}", f"unexpected exception: {e!r}\n{text}", replay)

    # merging of parallel parts -------------------------------------------------

    def export(self) -> dict[str, Any]:
        return {
            "states": self.states, "transitions": self.transitions, "traces": self.traces,
            "evaluations": self.evaluations, "nontrivial": self.nontrivial, "outcomes": self.outcomes,
            "samples": self.samples, "violations": self.violations, "known_seen": self.known_seen,
            "exhaustive": self.exhaustive, "extra": self.extra,
        }

    def absorb(self, part: dict[str, Any]) -> None:
        self.states |= part["states"]
        self.transitions += part["transitions"]
        self.traces += part["traces"]
        self.evaluations += part["evaluations"]
        self.nontrivial |= part["nontrivial"]
        self.outcomes.update(part["outcomes"])
        for s in part["samples"]:
            self.sample(s)
        self.known_seen.update(part["known_seen"])
        self.exhaustive = self.exhaustive and part["exhaustive"]
        for k, v in part["extra"].items():
            if isinstance(v, (int, float)):
                self.extra[k] = self.extra.get(k, 0) + v
            else:
                self.extra[k] = v
        for sig, message, replay in part["violations"]:
            if sig not in self.sigs:
                self.sigs.add(sig)
                self.violations.append((sig, message, replay))

    # reporting ----------------------------------------------------------------

    def write_evidence(self) -> None:
        coverage: dict[str, Any] = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.rule,
            "states": len(self.states),
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples,
            "exhaustive": self.exhaustive,
            "bounds": self.bounds,
            "outcomes": dict(self.outcomes.most_common(40)),
            "distinct_outcomes": len(self.outcomes),
            "known_findings_reproduced": dict(self.known_seen),
        }
        coverage.update(self.extra)
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.monotonic() - self.started, 3),
            "violations": len(self.violations),
        }
        path = os.path.join(ROOT, "evidence")
        os.makedirs(path, exist_ok=True)
        with open(os.path.join(path, f"{self.prop}.json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True, default=repr)
            f.write("\n")

    def finish(self) -> int:
        for sig in self.known:
            if self.known_seen[sig]:
                print(f"KNOWN-FINDING: property={self.prop} sig={sig} {self.known[sig]}")
            else:
                print(f"note: known finding no longer reproduced: property={self.prop} sig={sig}")
        self.write_evidence()
        if not self.violations:
            print(
                f"OK property={self.prop} tier={self.tier} states={len(self.states)} transitions={self.transitions} "
                f"evaluations={self.evaluations} nontrivial={len(self.nontrivial)} outcomes={len(self.outcomes)} "
                f"traces={self.traces} wall={time.monotonic() - self.started:.1f}s"
            )
            return 0
        folder = os.path.join(ROOT, "replays")
        os.makedirs(folder, exist_ok=True)
        for sig, message, replay in self.violations:
            path = os.path.join(folder, f"{self.prop}-{digest(sig)}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(
                    {"property": self.prop, "signature": sig, "message": message, "replay": replay},
                    f, indent=1, ensure_ascii=True, default=repr,
                )
                f.write("\n")
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  signature: {sig}")
            for line in str(message).splitlines()[:40]:
                print(f"  {line}")
        return 1


def parallel(run: Run, fn: Callable[[Run, Any], None], items: Iterable[Any], jobs: Optional[int] = None) -> None:
    """
    Evaluates `fn(part, item)` for each item in forked worker processes, each with its own `Run`, and merges the parts
    in the order of the items (so that the result does not depend on timing).
    """

    import multiprocessing

    items = list(items)
    if jobs is None:
        jobs = min(len(items), max(1, len(os.sched_getaffinity(0))))
    if jobs <= 1 or len(items) <= 1:
        for item in items:
            fn(run, item)
        return

    global _PARALLEL
    _PARALLEL = (run, fn, items)
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(jobs) as pool:
        for part in pool.imap(_parallel_worker, range(len(items)), chunksize=1):
            if "error" in part:
                raise HarnessError(part["error"])
            run.absorb(part)
    if len(run.violations) >= MAX_VIOLATIONS:
        raise Stop()


_PARALLEL: Any = None


def _parallel_worker(index: int) -> dict[str, Any]:
    base, fn, items = _PARALLEL
    part = Run(base.prop, base.tier, base.seed, base.level)
    try:
        fn(part, items[index])
    except Stop:
        pass
    except HarnessError as e:
        return {"error": "".join(traceback.format_exception(e))}
    except Exception as e:
        text = "".join(traceback.format_exception(e))
        if frames_in_repo(e.__traceback__):
            part.violations.append((f"unexpected-{type(e).__name__}", text[-3000:], {"item": repr(items[index])}))
        else:
            return {"error": text}
    return part.export()


def main(prop: str, tier: str) -> int:
    import importlib

    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        module = importlib.import_module(f"mc.checks.{prop.lower()}")
    except Exception as e:
        # the code under test could not even be imported
        traceback.print_exc()
        if frames_in_repo(e.__traceback__):
            run = Run(prop, tier, seed, "model_checking")
            run.rule = "import"
            run.case(outcome="import failed")
            run.sigs.add("import")
            run.violations.append(("import", "".join(traceback.format_exception(e))[-3000:], None))
            return run.finish()
        return 2

    import pysqlsync

    if not os.path.realpath(pysqlsync.__file__).startswith(REPO + os.sep):
        print(f"error: wrong package imported: {pysqlsync.__file__}", file=sys.stderr)
        return 2

    run = Run(prop, tier, seed, getattr(module, "LEVEL", "model_checking"))
    run.assumptions = list(getattr(module, "ASSUMPTIONS", []))
    run.rule = getattr(module, "RULE", "")
    try:
        module.explore(run)
    except Stop:
        run.exhaustive = False
    except CaseTimeout as e:
        run.violations.append((f"{e}/nontermination", "a case did not terminate", None))
    except HarnessError:
        raise
    except Exception as e:
        if frames_in_repo(e.__traceback__):
            text = "".join(traceback.format_exception(e))
            run.violations.append((f"unexpected-{type(e).__name__}", text[-3000:], None))
        else:
            raise
    return run.finish()
