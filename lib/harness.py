"""
The property-based testing engine shared by all checks.

A *case* is plain JSON data. It is produced by a Hypothesis strategy (or
by an enumeration, for the parts of a property with a small exhaustive
domain) and judged by `evaluate(case)`, which raises `Violation` when the
code under test breaks the property for that case. Because a case is
plain data, the shrunk failing case is written out as the replay file and
`run.py <ID> --replay <file>` evaluates exactly that case again.
"""

import hashlib
import json
import os
import signal
import sys
import threading
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)  # trials of planted bugs write elsewhere
REAL_TIME = time.time
MONO = time.monotonic


class Violation(Exception):
    """The property does not hold for the case being evaluated."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class CaseTimeout(BaseException):
    """A case did not end within its (very generous) time limit."""


class HarnessError(Exception):
    """The check itself cannot do its work: never a verdict."""


class Discard(Exception):
    """The case turned out to be outside the property's domain."""


def expect(condition, message, key=None):
    if not condition:
        raise Violation(message() if callable(message) else message, key)


class Part:
    """One generated-input search."""

    exhaustive = False

    def __init__(self, name, strategy, evaluate, quick, thorough=None,
                 nontrivial=None, labels=None, timeout=60):
        self.name = name
        self.strategy = strategy
        self.evaluate = evaluate
        self.quick = quick
        self.thorough = thorough or quick * 10
        self.nontrivial = nontrivial or (lambda case: True)
        self.labels = labels or (lambda case: ())
        self.timeout = timeout


class Sweep:
    """An enumerated family of cases: every one of them is evaluated."""

    def __init__(self, name, cases, evaluate, nontrivial=None, labels=None,
                 timeout=60, exhaustive=False):
        self.name = name
        self.cases = cases
        self.evaluate = evaluate
        self.nontrivial = nontrivial or (lambda case: True)
        self.labels = labels or (lambda case: ())
        self.timeout = timeout
        self.exhaustive = exhaustive


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def shorten(value, limit=160):
    text = value if isinstance(value, str) else canon(value)
    return text if len(text) <= limit else text[: limit - 12] + f"...({len(text)})"


class Known:
    """The committed list of known findings; only ever read."""

    def __init__(self, pid):
        self.keys = {}
        path = os.path.join(VERIF, "known_findings.txt")
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                fields = line[len("known: "):].split(" ", 2)
                prop = fields[0].partition("=")[2]
                key = fields[1].partition("=")[2]
                if prop == pid:
                    self.keys[key] = fields[2] if len(fields) > 2 else ""


class Run:
    def __init__(self, pid, module, tier, seed):
        self.pid = pid
        self.module = module
        self.tier = tier
        self.seed = seed
        self.started = MONO()
        self.soft_limit = float(
            os.environ.get("VERIF_SOFT_LIMIT", 420 if tier == "quick" else 3000),
        )
        self.known = Known(pid)
        self.known_seen = {}
        self.evaluations = 0
        self.discarded = 0
        self.was_discarded = False
        self.skipped_after_limit = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.per_part = {}
        self.failures = {}
        self.violations = []
        self.current = None
        self.current_started = None
        self.current_timeout = None
        self.lock = threading.Lock()
        self.done = False

    # ---------------------------------------------------------------- run

    def over_limit(self):
        return MONO() - self.started > self.soft_limit

    def account(self, part, case):
        if self.was_discarded:
            return
        self.evaluations += 1
        stats = self.per_part.setdefault(part.name, [0, 0])
        stats[0] += 1
        if part.nontrivial(case):
            stats[1] += 1
            text = canon(case)
            digest = hashlib.blake2b(
                (part.name + "\0" + text).encode(), digest_size=12,
            ).digest()
            if digest not in self.nontrivial:
                self.nontrivial.add(digest)
                count = sum(1 for s in self.samples if s[0] == part.name)
                if count < 4:
                    self.samples.append((part.name, shorten(text, 300)))
        for label in part.labels(case):
            key = f"{part.name}: {label}"
            self.labels[key] = self.labels.get(key, 0) + 1

    def evaluate(self, part, case):
        """Runs one case; returns the `Violation` it shows, or None."""
        self.current, self.current_timeout = (part, case), part.timeout
        self.current_started = MONO()
        self.was_discarded = False
        signal.setitimer(signal.ITIMER_REAL, part.timeout)
        try:
            part.evaluate(case)
        except Discard:
            self.discarded += 1
            self.was_discarded = True
            return None
        except (HarnessError, MemoryError):
            raise
        except CaseTimeout:
            self.reset_after_hang()
            return Violation(
                f"did not come to an end within {part.timeout} s", key="hang",
            )
        except Violation as violation:
            return violation
        except KeyboardInterrupt:
            raise
        except OSError as error:
            if error.errno in (28, 24, 12):  # ENOSPC, EMFILE, ENOMEM
                raise HarnessError(f"environment: {error!r}") from error
            return self.unexpected(error)
        except BaseException as error:  # noqa: BLE001
            return self.unexpected(error)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.current_started = None
        return None

    def unexpected(self, error):
        frames = traceback.extract_tb(error.__traceback__)
        where = ""
        for frame in frames[::-1]:
            if "aiootp" in frame.filename:
                where = f" from {os.path.basename(frame.filename)}:{frame.name}"
                break
        tail = "".join(traceback.format_exception(error)[-6:])
        violation = Violation(
            f"unexpected {type(error).__name__}: {str(error)[:300]}{where}",
        )
        violation.trace = tail
        return violation

    def reset_after_hang(self):
        from lib import sut

        sut.drop_loop()

    def note_failure(self, part, case, violation):
        if violation.key is not None and violation.key in self.known.keys:
            self.known_seen[violation.key] = str(violation)
            return False
        best = self.failures.get(part.name)
        size = (len(canon(case)), canon(case))
        if best is None or size < best[0]:
            self.failures[part.name] = (size, case, violation)
        return True

    def run_sweep(self, part):
        for case in part.cases(self.tier):
            if self.over_limit():
                self.skipped_after_limit += 1
                continue
            violation = self.evaluate(part, case)
            self.account(part, case)
            if violation and self.note_failure(part, case, violation):
                return

    def run_part(self, part):
        from hypothesis import HealthCheck, Phase, given, seed, settings
        from hypothesis import errors
        from hypothesis.internal.conjecture import engine

        engine.MAX_SHRINKING_SECONDS = 40
        number = part.quick if self.tier == "quick" else part.thorough
        part_seed = (self.seed * 1_000_003) ^ zlib.crc32(part.name.encode())
        state = {"hang": False}

        class Stop(BaseException):
            pass

        @seed(part_seed)
        @settings(
            max_examples=number,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )
        @given(part.strategy)
        def search(case):
            if self.over_limit():
                self.skipped_after_limit += 1
                return
            violation = self.evaluate(part, case)
            self.account(part, case)
            if violation and self.note_failure(part, case, violation):
                if violation.key == "hang":
                    raise Stop
                raise violation

        try:
            search()
        except Stop:
            pass
        except Violation:
            pass
        except (errors.Flaky, errors.FlakyFailure, errors.FlakyReplay):
            if part.name not in self.failures:
                raise
        except BaseExceptionGroup:
            if part.name not in self.failures:
                raise

    def run(self):
        parts = self.module.PARTS
        wanted = os.environ.get("VERIF_PARTS")
        for part in parts:
            if wanted and part.name not in wanted.split(","):
                continue
            before = MONO()
            if isinstance(part, Sweep):
                self.run_sweep(part)
            else:
                self.run_part(part)
            if os.environ.get("VERIF_VERBOSE"):
                done = self.per_part.get(part.name, [0, 0])
                print(f"# {part.name}: {done[0]} cases, {done[1]} non-trivial,"
                      f" {MONO() - before:.1f} s", file=sys.stderr)
            if self.failures:
                break
        self.done = True

    # ------------------------------------------------------------- report

    def write_replay(self, part_name, case, violation):
        directory = os.path.join(OUT, "replays")
        os.makedirs(directory, exist_ok=True)
        blob = canon({"part": part_name, "case": case})
        tag = hashlib.blake2b(blob.encode(), digest_size=6).hexdigest()
        path = os.path.join(directory, f"{self.pid}-{tag}.json")
        with open(path, "w", encoding="utf-8") as file:
            json.dump(
                {
                    "property": self.pid,
                    "part": part_name,
                    "case": case,
                    "message": str(violation),
                    "trace": getattr(violation, "trace", ""),
                    "seed": self.seed,
                    "replay": f"python run.py {self.pid} --replay {path}",
                },
                file, indent=1, sort_keys=True,
            )
            file.write("\n")
        return path

    def write_evidence(self):
        directory = os.path.join(OUT, "evidence")
        os.makedirs(directory, exist_ok=True)
        level = getattr(self.module, "LEVEL", "exploration")
        coverage = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.module.RULE,
            "samples": [f"{name}: {text}" for name, text in self.samples]
            or ["(no case was generated)"],
        }
        document = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": coverage,
            "assumptions": list(getattr(self.module, "ASSUMPTIONS", ())),
            "wall_s": round(MONO() - self.started, 3),
            "violations": len(self.violations),
        }
        coverage.update(self.extra_coverage())
        path = os.path.join(directory, f"{self.pid}.json")
        tmp = f"{path}.{os.getpid()}.tmp"
        with open(tmp, "w", encoding="utf-8") as file:
            json.dump(document, file, indent=1, sort_keys=True)
            file.write("\n")
        os.replace(tmp, path)

    def extra_coverage(self):
        return {
            "parts": {
                name: {"evaluations": a, "nontrivial": b}
                for name, (a, b) in self.per_part.items()
            },
            "classification": dict(sorted(self.labels.items())),
            "discarded": self.discarded,
            "skipped_after_time_limit": self.skipped_after_limit,
            "known_findings_seen": sorted(self.known_seen),
        }

    def finish(self):
        """Writes everything, prints the verdict, returns the exit code."""
        for part_name, (_, case, violation) in self.failures.items():
            path = self.write_replay(part_name, case, violation)
            self.violations.append((path, part_name, case, violation))
        self.write_evidence()
        for key, message in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.pid} {self.known.keys[key] or message}")
        for path, part_name, case, violation in self.violations:
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  part {part_name}: {violation}")
            print(f"  case {shorten(case, 600)}")
            trace = getattr(violation, "trace", "")
            if trace:
                print("  " + trace.replace("\n", "\n  "))
        print(
            f"{self.pid} {self.tier} seed={self.seed}: "
            f"{self.evaluations} cases, {len(self.nontrivial)} distinct "
            f"non-trivial, {len(self.violations)} violations, "
            f"{MONO() - self.started:.1f} s",
        )
        sys.stdout.flush()
        return 1 if self.violations else 0

    # ----------------------------------------------------------- watchdog

    def start_watchdog(self):
        def watch():
            while not self.done:
                time.sleep(1)
                started, timeout = self.current_started, self.current_timeout
                if started is None or MONO() - started < 2.0 * timeout + 20:
                    continue
                # the main thread does not even react to its alarm
                part, case = self.current
                violation = Violation(
                    f"hangs (no reaction for {MONO() - started:.0f} s)", "hang",
                )
                if self.note_failure(part, case, violation):
                    code = self.finish()
                else:
                    code = 3
                sys.stdout.flush()
                from lib import sut

                sut.cleanup()
                os._exit(code)

        threading.Thread(target=watch, daemon=True).start()


def install_alarm():
    def on_alarm(signum, frame):
        raise CaseTimeout

    signal.signal(signal.SIGALRM, on_alarm)
