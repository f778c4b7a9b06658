"""Shared runner of the property-based checks.

A check module defines:

  PROPERTY = "P01"          property identifier
  RULE = "..."              when is a generated case non-trivial
  LEVEL_NOTE / ASSUMPTIONS  optional list[str] for the evidence
  SUBTESTS = [SubTest(...)] generated-input searches

A sub test couples a Hypothesis strategy (the generator) with a function
(value, ctx) that drives the code in /repo and compares what it does with an
oracle. The function reports a broken property by raising Violation (or by any
exception of the code under test, on an input on which it must not raise).
"""

import argparse
import base64
import contextlib
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
if REPO not in sys.path:
    sys.path.insert(0, REPO)

try:
    import hypothesis
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis

from hypothesis import HealthCheck, Phase, Verbosity, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401


class Violation(Exception):
    """The property does not hold."""


class HarnessError(Exception):
    """The harness itself failed; no verdict."""


class NonTermination(BaseException):
    """The code under test exceeded its budget.

    A BaseException so that no handler in the code under test swallows it.
    """


def require(condition, message):
    """Raises Violation if the condition does not hold."""
    if not condition:
        raise Violation(message() if callable(message) else message)


def equal(actual, expected, what):
    """Raises Violation if the values differ (also for type mix-ups)."""
    same = actual == expected
    if not isinstance(same, bool):
        same = bool(same)
    if not same:
        raise Violation(
            f"{what}: expected {_short(expected)} but got {_short(actual)}"
        )


def _short(value, limit=400):
    text = repr(value)
    if len(text) > limit:
        text = text[:limit] + "..."
    return text


def sequences_equal(actual, expected, what):
    """Compares two sequences, naming the first difference."""
    actual, expected = list(actual), list(expected)
    for index, (a, e) in enumerate(zip(actual, expected)):
        if a != e:
            raise Violation(
                f"{what}[{index:d}]: expected {_short(e)} but got {_short(a)}"
            )
    if len(actual) != len(expected):
        rest = actual[len(expected):] or expected[len(actual):]
        raise Violation(
            f"{what}: expected {len(expected):d} elements but got "
            f"{len(actual):d}; first surplus or missing: {_short(rest[0])}"
        )


class Context:
    """Per worker context: counters, scratch directory, samples."""

    MAX_SAMPLES = 4

    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.evaluations = 0
        self.classes = {}
        self.nontrivial = set()
        self.samples = []
        self.known = []
        self._file_number = 0

    def note(self, nontrivial, key, sample=None, labels=()):
        """Records a generated case."""
        for label in labels:
            self.classes[label] = self.classes.get(label, 0) + 1
        if not nontrivial:
            return
        if not isinstance(key, bytes):
            key = repr(key).encode("utf-8", "surrogatepass")
        digest = hashlib.blake2b(key, digest_size=8).hexdigest()
        if digest not in self.nontrivial:
            self.nontrivial.add(digest)
            if len(self.samples) < self.MAX_SAMPLES and (
                len(self.nontrivial) % 7 == 1
            ):
                self.samples.append(_short(sample if sample is not None else key, 600))

    def path(self, name=None):
        """Returns a path in the scratch directory."""
        if name is None:
            name = "input.bin"
        return os.path.join(self.scratch, name)

    def write(self, data, name=None):
        """Writes data to a scratch file and returns its path."""
        path = self.path(name)
        with open(path, "wb") as file_object:
            file_object.write(data)
        return path

    @contextlib.contextmanager
    def directory(self):
        """Creates (and removes) a sub directory of the scratch directory."""
        path = tempfile.mkdtemp(dir=self.scratch)
        try:
            yield path
        finally:
            shutil.rmtree(path, ignore_errors=True)


class SubTest:
    """A generated-input search."""

    def __init__(self, name, strategy, function, quick, thorough=None, shards=None,
                 cpu_limit=60.0):
        self.name = name
        self.strategy = strategy
        self.function = function
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.shards = shards
        self.cpu_limit = cpu_limit


@contextlib.contextmanager
def cpu_budget(seconds):
    """Raises NonTermination when the CPU time budget is exceeded.

    CPU time of this process, not wall-clock time: the load of the machine does
    not change the outcome.
    """

    def handler(signum, frame):
        raise NonTermination(f"more than {seconds:.0f} s of CPU time")

    previous = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds, 5.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, previous)


def _derive_seed(seed, *parts):
    text = "/".join([str(seed)] + [str(part) for part in parts])
    return zlib.crc32(text.encode("utf-8")) + (zlib.adler32(text.encode()) << 32)


def _describe(exception):
    if isinstance(exception, Violation):
        return str(exception)
    lines = traceback.format_exception(exception)
    frames = [
        f"{os.path.basename(f.filename)}:{f.name}"
        for f in traceback.extract_tb(exception.__traceback__)
        if "/hypothesis/" not in f.filename
    ]
    return (
        f"unexpected {type(exception).__name__}: {exception!s} "
        f"[{' > '.join(frames[-6:])}]" if lines else repr(exception)
    )


# How long a violation is made smaller, and how long the shards that are still
# running when one was found are waited for: a violation that is an endless loop
# takes the whole CPU budget of a case with every attempt.
SHRINK_SECONDS = 60
GRACE_SECONDS = 90


class _EndOfShrinking(BaseException):
    """Ends the search of a shard, the last violation is the one reported."""


_HARNESS_ERRORS = (HarnessError, ImportError, SyntaxError, KeyboardInterrupt,
                   SystemExit)


def _evaluate(subtest, value, ctx):
    """Evaluates one case; returns None or a description of the violation."""
    try:
        with cpu_budget(subtest.cpu_limit):
            subtest.function(value, ctx)
    except hypothesis.errors.HypothesisException:
        raise
    except hypothesis.errors.StopTest:
        raise
    except NonTermination as exception:
        return f"does not terminate: {exception!s}"
    except _HARNESS_ERRORS:
        raise
    except OSError as exception:
        if exception.errno in (28, 24, 12):
            raise HarnessError(f"sandbox out of resources: {exception!s}")
        return _describe(exception)
    except Exception as exception:  # pylint: disable=broad-except
        return _describe(exception)
    return None


def _run_shard(subtest, tier, seed, shard, shards, queue):
    """Runs one shard of a sub test in a worker process."""
    result = {"subtest": subtest.name, "shard": shard, "violation": None,
              "error": None}
    scratch = tempfile.mkdtemp(prefix="vf_")
    ctx = Context(tier, scratch)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        total = subtest.quick if tier == "quick" else subtest.thorough
        count = max(1, total // shards)
        last_failure = {}

        def body(value):
            ctx.evaluations += 1
            if last_failure and time.time() > last_failure["deadline"]:
                raise _EndOfShrinking()
            message = _evaluate(subtest, value, ctx)
            if message is not None:
                last_failure.setdefault("deadline", time.time() + SHRINK_SECONDS)
                last_failure["value"] = value
                last_failure["message"] = message
                # One exception type and one raise site, so that the shrinker
                # treats every violation alike.
                raise Violation(message)

        test = hypothesis.given(subtest.strategy)(body)
        test = hypothesis.seed(_derive_seed(seed, subtest.name, shard))(test)
        test = settings(
            max_examples=count,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            verbosity=Verbosity.quiet,
            print_blob=False,
        )(test)

        try:
            test()
        except (Violation, _EndOfShrinking):
            result["violation"] = last_failure
        except hypothesis.errors.Flaky:
            # The failure did not reproduce on the same value: confirm by hand.
            value = last_failure.get("value")
            messages = [_evaluate(subtest, value, ctx) for _ in range(3)]
            if any(messages):
                last_failure["message"] = [m for m in messages if m][0]
                result["violation"] = last_failure
            else:
                last_failure["message"] = (
                    "not reproducible in isolation (depends on preceding calls): "
                    + last_failure["message"])
                result["violation"] = last_failure

    except BaseException as exception:  # pylint: disable=broad-except
        result["error"] = "".join(traceback.format_exception(exception))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    result["evaluations"] = ctx.evaluations
    result["nontrivial"] = sorted(ctx.nontrivial)
    result["samples"] = ctx.samples
    result["classes"] = ctx.classes
    result["known"] = ctx.known
    if result["violation"]:
        violation = result["violation"]
        try:
            blob = base64.b64encode(pickle.dumps(violation["value"])).decode()
        except Exception:  # pylint: disable=broad-except
            blob = None
        result["violation"] = {
            "message": violation["message"],
            "value": repr(violation["value"]),
            "pickle": blob,
        }
    queue.put(result)


def _load_known_findings(property_identifier):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path, encoding="utf-8") as file_object:
            findings = json.load(file_object)
    except FileNotFoundError:
        return []
    return [
        finding for finding in findings.get("findings", [])
        if finding["property"] == property_identifier
        and finding.get("status") == "known"
    ]


def run(module, tier, seed, only=None):
    """Runs a check module and returns the exit code."""
    start = time.time()
    context = multiprocessing.get_context("fork")
    queue = context.Queue()

    jobs = []
    for subtest in module.SUBTESTS:
        if only and subtest.name not in only:
            continue
        total = subtest.quick if tier == "quick" else subtest.thorough
        shards = subtest.shards or min(8, max(1, total // 25))
        for shard in range(shards):
            jobs.append((subtest, shard, shards))
    # Interleave the sub tests so that the cores are used evenly.
    jobs.sort(key=lambda job: (job[1], job[0].name))

    number_of_processes = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    running, results, pending = [], [], list(jobs)
    end_of_grace = None
    killed = False
    while pending or running:
        if end_of_grace is None and any(result["violation"] for result in results):
            end_of_grace = time.time() + GRACE_SECONDS
            pending = []
        if end_of_grace is not None and time.time() > end_of_grace:
            for process in running:
                process.kill()
                process.join()
            killed = True
            break
        while pending and len(running) < number_of_processes:
            subtest, shard, shards = pending.pop(0)
            process = context.Process(
                target=_run_shard,
                args=(subtest, tier, seed, shard, shards, queue),
            )
            process.start()
            running.append(process)
        try:
            results.append(queue.get(timeout=0.05))
        except Exception:  # pylint: disable=broad-except
            pass
        alive = []
        for process in running:
            if process.is_alive():
                alive.append(process)
            else:
                process.join()
        if len(alive) == 0 and not pending and len(results) < len(jobs):
            # Drain what is left, then stop.
            deadline = time.time() + 5
            while len(results) < len(jobs) and time.time() < deadline:
                try:
                    results.append(queue.get(timeout=0.2))
                except Exception:  # pylint: disable=broad-except
                    pass
            running = []
            break
        running = alive

    while len(results) < len(jobs) and not killed:
        try:
            results.append(queue.get(timeout=0.5))
        except Exception:  # pylint: disable=broad-except
            break

    results.sort(key=lambda r: (r["subtest"], r["shard"]))

    errors = [r["error"] for r in results if r["error"]]
    if len(results) < len(jobs):
        errors.append(
            f"{len(jobs) - len(results):d} of {len(jobs):d} workers gave no answer")
    violations = [r for r in results if r["violation"]]

    evaluations = sum(r["evaluations"] for r in results)
    nontrivial = set()
    classes = {}
    per_subtest = {}
    samples = []
    known = {}
    for r in results:
        nontrivial.update(f"{r['subtest']}:{digest}" for digest in r["nontrivial"])
        for label, count in r["classes"].items():
            classes[label] = classes.get(label, 0) + count
        per_subtest[r["subtest"]] = (
            per_subtest.get(r["subtest"], 0) + r["evaluations"])
        for sample in r["samples"][:2]:
            if sum(1 for s in samples if s.startswith(r["subtest"] + ":")) < 2:
                samples.append(f"{r['subtest']}: {sample}")
        for text in r["known"]:
            known[text] = known.get(text, 0) + 1

    # The smallest failing value per sub test becomes the replay file.
    best = {}
    for r in violations:
        current = best.get(r["subtest"])
        if current is None or len(r["violation"]["value"]) < len(
                current["violation"]["value"]):
            best[r["subtest"]] = r

    replay_directory = os.path.join(VERIF, "replay")
    lines = []
    evidence_violations = []
    for name, r in sorted(best.items()):
        os.makedirs(replay_directory, exist_ok=True)
        path = os.path.join(replay_directory, f"{module.PROPERTY}-{name}.json")
        with open(path, "w", encoding="utf-8") as file_object:
            json.dump(
                {
                    "property": module.PROPERTY,
                    "module": module.__name__,
                    "subtest": name,
                    "message": r["violation"]["message"],
                    "value": r["violation"]["value"],
                    "pickle": r["violation"]["pickle"],
                    "replay": (
                        f"/opt/venv/bin/python {VERIF}/run.py "
                        f"{module.__name__.split('.')[-1]} --replay {path}"),
                },
                file_object, indent=1)
            file_object.write("\n")
        lines.append((path, name, r["violation"]["message"]))
        evidence_violations.append(
            {"subtest": name, "message": r["violation"]["message"], "replay": path})

    evidence = {
        "property": module.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": module.RULE,
            "samples": samples[:12] or ["(none)"],
            "evaluations_per_subtest": per_subtest,
            "classes": dict(sorted(classes.items())),
            "known_findings_hit": known,
        },
        "wall_s": round(time.time() - start, 2),
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "violations": len(evidence_violations),
    }
    if evidence_violations:
        evidence["coverage"]["violations_found"] = evidence_violations
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{module.PROPERTY}.json")
    temporary = f"{path}.{os.getpid():d}"
    with open(temporary, "w", encoding="utf-8") as file_object:
        json.dump(evidence, file_object, indent=1)
        file_object.write("\n")
    os.replace(temporary, path)

    for finding in _load_known_findings(module.PROPERTY):
        print(f"KNOWN-FINDING: property={module.PROPERTY} {finding['what']}")

    print(
        f"{module.PROPERTY} {tier} seed={seed:d}: {evaluations:d} cases, "
        f"{len(nontrivial):d} distinct non-trivial, "
        f"{evidence['wall_s']:.1f} s")

    if violations:
        for path, name, message in lines:
            print(f"  {name}: {message}")
            print(f"VIOLATION property={module.PROPERTY} replay={path}")
        return 1

    if errors:
        for error in errors[:3]:
            print(error, file=sys.stderr)
        print(f"ERROR: {len(errors):d} harness error(s), no verdict",
              file=sys.stderr)
        return 2

    return 0


def replay(module, path):
    """Re-runs a replay file without the search."""
    with open(path, encoding="utf-8") as file_object:
        data = json.load(file_object)
    value = pickle.loads(base64.b64decode(data["pickle"]))
    subtest = {s.name: s for s in module.SUBTESTS}[data["subtest"]]
    scratch = tempfile.mkdtemp(prefix="vf_")
    try:
        message = _evaluate(subtest, value, Context("quick", scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if message:
        print(f"  {subtest.name}: {message}")
        print(f"VIOLATION property={module.PROPERTY} replay={path}")
        return 1
    print(f"{module.PROPERTY}: the replayed case passes")
    return 0


def main(argv):
    """The main program."""
    parser = argparse.ArgumentParser()
    parser.add_argument("check")
    parser.add_argument("--tier", default="quick", choices=("quick", "thorough"))
    parser.add_argument("--seed", type=int, default=None)
    parser.add_argument("--replay")
    parser.add_argument("--only", action="append")
    options = parser.parse_args(argv)

    seed = options.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1

    sys.path.insert(0, os.path.join(VERIF, "checks"))
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    module = importlib.import_module(options.check)
    if options.replay:
        return replay(module, options.replay)
    return run(module, options.tier, seed, options.only)
