"""
Runner shared by every check: seeded case scheduling over forked workers, monitors, evidence, replay files, findings.

A check module (`/verif/checks/cNN.py`) defines:

  PROP      property id
  LEVEL     evidence level
  RULE      how cases are made and what makes one non-trivial
  ANCHORS   list of files under /repo whose executed lines are recorded (sys.monitoring)
  COUNTS    {"quick": n, "thorough": m}: number of generated cases
  REQUIRED  names of observation counters that must be non-zero (otherwise the run is inconclusive: exit 2)
  case(i, rng, obs)      runs one generated case; raises Violation
  fixed(obs) -> list     optional: named fixed cases [(name, callable(obs))]
  findings() -> list     optional: [(finding id, callable() -> Optional[str])], one per entry in known_findings.json;
                         the callable returns a description if the defect is still present, None when it is gone
"""

from __future__ import annotations

import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from typing import Any, Callable, Optional

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CRM_REPO", "/repo")
STUBS = os.path.join(VERIF, "stubs")
CASE_TIMEOUT_S = int(os.environ.get("VERIF_CASE_TIMEOUT", "120"))
MAX_REPORTED = int(os.environ.get("VERIF_MAX_REPORTED", "5"))


class Violation(Exception):
    """The property does not hold on the execution just observed."""

    def __init__(self, message: str, signature: str = "", **data: Any) -> None:
        super().__init__(message)
        self.message = message
        self.signature = signature or message.split("\n", 1)[0][:160]
        self.data = data


class HarnessError(Exception):
    """The machinery itself went wrong; never reported as a violation."""


class CaseTimeout(BaseException):
    """Raised by the watchdog inside a case that does not come back."""


class Skip(Exception):
    """The generated case falls outside of what the property quantifies over."""


class Obs:
    """Accumulates what the monitors observed."""

    def __init__(self) -> None:
        self.counts: dict[str, int] = {}
        self.digests: set[str] = set()
        self.sets: dict[str, set[str]] = {}
        self.samples: list[Any] = []
        self.case_data: dict[str, Any] = {}
        self.trivial = False
        self.tier = "quick"
        self.scratch = ""

    def count(self, name: str, n: int = 1) -> None:
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, name: str, value: Any) -> None:
        """Records a distinct observed value (an interleaving, a state, an outcome)."""
        s = self.sets.setdefault(name, set())
        if len(s) < 20000:
            s.add(value if isinstance(value, str) and len(value) < 120 else digest(value))

    def distinct(self, value: Any) -> None:
        """Marks the current case as non-trivial, identified by `value`."""
        self.digests.add(digest(value))

    def sample(self, value: Any, limit: int = 3) -> None:
        if len(self.samples) < limit:
            self.samples.append(value)

    def data(self, **kw: Any) -> None:
        """Data written into the replay file if this case fails."""
        self.case_data.update(kw)


def digest(value: Any) -> str:
    if not isinstance(value, (bytes, str)):
        value = repr(value)
    if isinstance(value, str):
        value = value.encode("utf-8", "surrogatepass")
    return hashlib.blake2b(value, digest_size=8).hexdigest()


# ---------------------------------------------------------------------------------------------------------------------
# Line monitor: which lines of the anchored files did the workload execute?


class LineMonitor:
    TOOL = 3

    def __init__(self, files: list[str]) -> None:
        self.files = {os.path.join(REPO, f) for f in files}
        self.hit: dict[str, set[int]] = {f: set() for f in self.files}
        self.on = False

    def start(self) -> None:
        mon = getattr(sys, "monitoring", None)
        if mon is None or not self.files:
            return
        try:
            mon.use_tool_id(self.TOOL, "verif")
        except ValueError:
            return
        hit = self.hit
        disable = mon.DISABLE

        def on_line(code: Any, line: int) -> Any:
            f = code.co_filename
            if f in hit:
                hit[f].add(line)
            return disable

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.on = True

    def result(self) -> dict[str, list[int]]:
        return {os.path.relpath(f, REPO): sorted(v) for f, v in self.hit.items()}


def total_lines(path: str) -> int:
    """Number of distinct executable lines in functions of a source file."""
    try:
        with open(path, encoding="utf-8") as f:
            code = compile(f.read(), path, "exec")
    except (OSError, SyntaxError):
        return 0
    lines: set[int] = set()
    stack = [code]
    while stack:
        c = stack.pop()
        if c.co_name != "<module>":
            lines.update(ln for _, _, ln in c.co_lines() if ln)
        stack.extend(k for k in c.co_consts if hasattr(k, "co_code"))
    return len(lines)


# ---------------------------------------------------------------------------------------------------------------------
# Containment: no code under test may write outside of the worker's scratch directory.

_WRITE_EVENTS = {
    "os.remove": (0,), "os.rename": (0, 1), "os.rmdir": (0,), "os.mkdir": (0,), "os.link": (1,), "os.symlink": (1,),
    "os.truncate": (0,), "os.chmod": (0,), "os.chown": (0,), "shutil.rmtree": (0,), "shutil.move": (1,),
    "shutil.copyfile": (1,), "shutil.copytree": (1,), "shutil.unpack_archive": (1,),
}


class ContainmentError(PermissionError):
    """A write outside of the scratch directory was attempted (and stopped)."""


class Containment:
    """Audit hook that blocks file-system writes outside of the allowed directories."""

    def __init__(self) -> None:
        self.allowed: list[str] = []
        self.blocked: list[str] = []
        self.listeners: list[Callable[[str, tuple[Any, ...]], None]] = []
        self.active = False

    def install(self) -> None:
        sys.addaudithook(self._hook)

    def _ok(self, p: Any, follow: bool = False) -> bool:
        if isinstance(p, int) or p is None:
            return True
        try:
            p = os.fspath(p)
        except TypeError:
            return True
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p in ("/dev/null", "/dev/tty") or p.startswith("/dev/shm/"):
            return True
        real = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        if follow:
            real = os.path.realpath(p)
        return any(real == a or real.startswith(a + "/") for a in self.allowed)

    def _hook(self, event: str, args: tuple[Any, ...]) -> None:
        if not self.active:
            return
        for listener in self.listeners:
            listener(event, args)
        target: Any = None
        if event == "open":
            path, mode, flags = (list(args) + [None, None, None])[:3]
            writing = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
                isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            )
            if not writing or self._ok(path, follow=True):
                return
            target = path
        elif event in _WRITE_EVENTS:
            # Calls relative to a directory descriptor (rmtree's inner steps) are checked at their top-level call.
            follow = event in ("os.truncate", "os.chmod", "os.chown")
            bad = [args[k] for k in _WRITE_EVENTS[event] if k < len(args) and not self._ok(args[k], follow)]
            dir_fd = args[-1] if args and isinstance(args[-1], int) else -1
            if not bad or (event in ("os.remove", "os.rmdir", "os.mkdir") and dir_fd != -1):
                return
            target = bad[0]
        else:
            return
        self.blocked.append(f"{event}: {target!r}")
        raise ContainmentError(f"containment: {event} on {target!r}")


CONTAINMENT = Containment()


# ---------------------------------------------------------------------------------------------------------------------
# Environment


def setup_env() -> None:
    """Puts the real code and the `conda` stand-in on the path."""
    for p in (STUBS, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if VERIF not in sys.path:
        sys.path.append(VERIF)
    _memoize_schema_checks()


def _memoize_schema_checks() -> None:
    """
    `jsonschema.validate()` checks the (constant) schema against its meta-schema at every call, which takes most of the
    time of a patch. Each schema object is checked once per process instead.
    """
    try:
        from jsonschema import validators
    except ImportError:
        return
    for cls in {v for v in vars(validators).values() if isinstance(v, type) and hasattr(v, "check_schema")}:
        original = cls.check_schema
        done: dict[int, Any] = {}

        def check_schema(schema: Any, *a: Any, _original: Any = original, _done: dict[int, Any] = done, **k: Any) -> None:
            if a or k or _done.get(id(schema), _done) is not schema:
                _original(schema, *a, **k)
                _done[id(schema)] = schema

        cls.check_schema = staticmethod(check_schema)


def reexec() -> None:
    """Restarts under the project's interpreter with a fixed environment."""
    if os.environ.get("VERIF_CHILD") == "1":
        return
    env = dict(os.environ)
    env.update(
        VERIF_CHILD="1",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
        LC_ALL="C.UTF-8",
        GIT_CONFIG_GLOBAL="/dev/null",
        GIT_CONFIG_SYSTEM="/dev/null",
        GIT_TERMINAL_PROMPT="0",
        GIT_AUTHOR_NAME="v", GIT_AUTHOR_EMAIL="v@example.org",
        GIT_COMMITTER_NAME="v", GIT_COMMITTER_EMAIL="v@example.org",
        PYTHONPATH=os.pathsep.join([STUBS, REPO]),
        NO_PROXY="*",
        no_proxy="*",
    )
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
        env.pop(k, None)
    python = "/opt/venv/bin/python"
    if not os.path.exists(python):
        python = sys.executable
    os.execve(python, [python, *sys.argv], env)


# ---------------------------------------------------------------------------------------------------------------------
# Workers


def _describe(exc: BaseException) -> tuple[str, str]:
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in reversed(tb):
        if fr.filename.startswith(REPO + "/"):
            where = f"{os.path.relpath(fr.filename, REPO)}:{fr.name}"
            break
    text = "".join(traceback.format_exception(exc))[-4000:]
    return where, text


def run_one(fn: Callable[[Obs], None], obs: Obs, name: str) -> Optional[dict[str, Any]]:
    """Runs a single case under the watchdog. Returns the violation record, if any."""
    obs.case_data = {}
    obs.trivial = False

    def on_alarm(_s: int, _f: Any) -> None:
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT_S)
    CONTAINMENT.blocked.clear()
    try:
        fn(obs)
    except Skip:
        obs.count("cases_outside_quantifier")
        return None
    except Violation as e:
        return {"case": name, "message": e.message, "signature": e.signature, "data": {**obs.case_data, **e.data}}
    except CaseTimeout as e:
        where, text = _describe(e)
        return {
            "case": name,
            "message": f"case did not finish within {CASE_TIMEOUT_S} s (in {where or 'harness'})",
            "signature": f"timeout {where}",
            "data": {**obs.case_data, "traceback": text},
            "harness": not where,
        }
    except HarnessError as e:
        return {"case": name, "message": f"harness: {e}", "signature": "harness", "data": dict(obs.case_data), "harness": True}
    except BaseException as e:  # pylint: disable=broad-exception-caught
        if isinstance(e, KeyboardInterrupt):
            raise
        where, text = _describe(e)
        return {
            "case": name,
            "message": f"unexpected {type(e).__name__}: {e} (raised in {where or 'harness'})",
            "signature": f"{type(e).__name__} {where}",
            "data": {**obs.case_data, "traceback": text},
            # The environment failing (disk, descriptors) is not a verdict about the property.
            "harness": not where and isinstance(e, (MemoryError, OSError)),
        }
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def case_rng(prop: str, seed: int, i: int) -> random.Random:
    return random.Random(f"{prop}:{seed}:{i}")


def _worker(mod: Any, names: list[Any], seed: int, tier: str, out: str, deadline: float) -> None:
    obs = Obs()
    obs.tier = tier
    scratch = tempfile.mkdtemp(prefix="verif_w_")
    obs.scratch = scratch
    os.environ["HOME"] = scratch
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    CONTAINMENT.allowed = [os.path.realpath(scratch)]
    CONTAINMENT.active = True
    mon = LineMonitor(getattr(mod, "ANCHORS", []))
    mon.start()
    violations: list[dict[str, Any]] = []
    done = 0
    evaluated = 0
    fixed = dict(mod.fixed(obs)) if hasattr(mod, "fixed") else {}
    per_sig: dict[str, int] = {}
    truncated = False
    for name in names:
        if time.time() > deadline:
            truncated = True
            break
        if isinstance(name, str):
            fn = fixed[name]
            label = name
        else:
            label = str(name)
            fn = lambda o, k=name: mod.case(k, case_rng(mod.PROP, seed, k), o)  # noqa: E731
        rec = run_one(fn, obs, label)
        done += 1
        evaluated += 1
        if rec is not None:
            n = per_sig.get(rec["signature"], 0)
            per_sig[rec["signature"]] = n + 1
            if n < 2:
                violations.append(rec)
        try:
            os.chdir(scratch)
        except OSError:
            os.makedirs(scratch, exist_ok=True)
            os.chdir(scratch)
    result = {
        "violations": violations,
        "per_sig": per_sig,
        "counts": obs.counts,
        "digests": sorted(obs.digests),
        "sets": {k: sorted(v) for k, v in obs.sets.items()},
        "samples": obs.samples,
        "lines": mon.result(),
        "done": done,
        "truncated": truncated,
    }
    CONTAINMENT.active = False
    with open(out + ".tmp", "w", encoding="utf-8") as f:
        json.dump(result, f, default=repr)
    os.rename(out + ".tmp", out)
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)


def load_findings(prop: str) -> list[dict[str, Any]]:
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path, encoding="utf-8") as f:
            return [e for e in json.load(f)["findings"] if e["property"] == prop]
    except FileNotFoundError:
        return []


def main() -> int:
    reexec()
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--only", default="", help="run only this case (name or index)")
    ap.add_argument("--replay", default="")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"

    setup_env()
    CONTAINMENT.install()
    t0 = time.time()
    prop = args.prop.upper()
    mod = importlib.import_module(f"checks.{prop.lower()}")

    if args.replay:
        with open(args.replay, encoding="utf-8") as f:
            rep = json.load(f)
        args.seed, args.tier, args.only = rep["seed"], rep["tier"], str(rep["case"])

    n_cases = args.cases or mod.COUNTS[args.tier]
    budget = {"quick": 420.0, "thorough": 3000.0}[args.tier]
    deadline = t0 + float(os.environ.get("VERIF_BUDGET_S", budget))

    probe_obs = Obs()
    probe_obs.tier = args.tier
    names: list[Any] = [n for n, _ in (mod.fixed(probe_obs) if hasattr(mod, "fixed") else [])]
    names += list(range(n_cases))
    if args.only:
        names = [n for n in names if str(n) == args.only]
    jobs = max(1, min(args.jobs, getattr(mod, "MAX_JOBS", 64), len(names) or 1))

    base_tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    pids: dict[int, str] = {}
    sys.stdout.flush()
    for w in range(jobs):
        out = os.path.join(base_tmp, f"w{w}.json")
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                if not args.verbose:
                    log = os.open(os.path.join(base_tmp, f"w{w}.log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(log, 1)
                    os.dup2(log, 2)
                    os.close(log)
                os.environ["TMPDIR"] = base_tmp
                tempfile.tempdir = base_tmp
                _worker(mod, names[w::jobs], args.seed, args.tier, out, deadline)
                code = 0
            except BaseException:  # pylint: disable=broad-exception-caught
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = out
    harness_errors: list[str] = []
    hard_deadline = deadline + 2 * CASE_TIMEOUT_S
    waiting = dict(pids)
    while waiting:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > hard_deadline:
                for p in waiting:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                harness_errors.append("workers killed at the hard deadline")
                hard_deadline = float("inf")
            time.sleep(0.02)
            continue
        out = waiting.pop(pid, None)
        if out is None:
            continue
        try:
            os.killpg(pid, signal.SIGKILL)  # stray grandchildren
        except OSError:
            pass
        if status != 0:
            tail = ""
            try:
                with open(out.replace(".json", ".log"), errors="replace") as f:
                    tail = f.read()[-1500:]
            except OSError:
                pass
            harness_errors.append(f"worker exited with status {status}: {tail}")

    counts: dict[str, int] = {}
    digests: set[str] = set()
    sets: dict[str, set[str]] = {}
    samples: list[Any] = []
    lines: dict[str, set[int]] = {}
    violations: list[dict[str, Any]] = []
    per_sig: dict[str, int] = {}
    evaluations = 0
    truncated = False
    for out in pids.values():
        if not os.path.exists(out):
            continue
        with open(out, encoding="utf-8") as f:
            r = json.load(f)
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        digests.update(r["digests"])
        for k, v in r["sets"].items():
            sets.setdefault(k, set()).update(v)
        samples += r["samples"]
        for k, v in r["lines"].items():
            lines.setdefault(k, set()).update(v)
        violations += r["violations"]
        for k, v in r["per_sig"].items():
            per_sig[k] = per_sig.get(k, 0) + v
        evaluations += r["done"]
        truncated = truncated or r["truncated"]
    shutil.rmtree(base_tmp, ignore_errors=True)

    # Known findings: the specific input of each one is run on its own; generated workloads avoid that input class.
    known = load_findings(prop)
    probes = dict(mod.findings()) if hasattr(mod, "findings") else {}
    finding_state: dict[str, str] = {}
    if not args.only:
        for entry in known:
            if entry.get("status") == "fixed":
                continue
            probe = probes.get(entry["id"])
            if probe is None:
                harness_errors.append(f"no probe for finding {entry['id']}")
                continue
            scratch = tempfile.mkdtemp(prefix="verif_f_")
            pid = os.fork()
            if pid == 0:
                try:
                    os.chdir(scratch)
                    tempfile.tempdir = scratch
                    signal.alarm(CASE_TIMEOUT_S)
                    try:
                        what = probe()
                    except Exception as e:  # pylint: disable=broad-exception-caught
                        what = f"probe raised {type(e).__name__}: {e}"
                    with open(os.path.join(scratch, "out"), "w", encoding="utf-8") as f:
                        f.write(what or "")
                    os._exit(0)
                finally:
                    os._exit(1)
            os.waitpid(pid, 0)
            try:
                with open(os.path.join(scratch, "out"), encoding="utf-8") as f:
                    what = f.read()
            except OSError:
                what = "probe did not finish"
            shutil.rmtree(scratch, ignore_errors=True)
            if what:
                finding_state[entry["id"]] = what
                print(f"KNOWN-FINDING: property={prop} {entry['id']}: {' '.join(what.split())[:300]}")
            else:
                finding_state[entry["id"]] = "no longer reproduces"

    harness_v = [v for v in violations if v.get("harness")]
    real_v = [v for v in violations if not v.get("harness")]
    wall = time.time() - t0

    replay_dir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replay_dir, exist_ok=True)
    reported: list[str] = []
    seen_sig: set[str] = set()
    for v in real_v:
        if v["signature"] in seen_sig or len(reported) >= MAX_REPORTED:
            continue
        seen_sig.add(v["signature"])
        path = os.path.join(replay_dir, f"{prop}_{args.tier}_s{args.seed}_{digest(v['signature'])}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(
                {
                    "property": prop, "tier": args.tier, "seed": args.seed, "case": v["case"],
                    "message": v["message"], "signature": v["signature"], "data": v["data"],
                    "how": f"python3 /verif/check.py {prop} --replay {path}",
                },
                f, indent=2, default=repr,
            )
        reported.append(path)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  case {v['case']}: {v['message'][:1500]}")
        if args.verbose or args.only:
            print(json.dumps(v["data"], indent=1, default=repr).replace("\\n", "\n")[:6000])

    missing = [r for r in getattr(mod, "REQUIRED", []) if not counts.get(r)] if not (args.only or args.cases) else []

    level = mod.LEVEL
    coverage: dict[str, Any] = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(digests),
        "rule": mod.RULE,
        "samples": samples[:6] or ["(none)"],
        "observed_events": dict(sorted(counts.items())),
        "observed_distinct": {k: len(v) for k, v in sorted(sets.items())},
        "anchored_lines_executed": {
            k: f"{len(v)} of {total_lines(os.path.join(REPO, k))}" for k, v in sorted(lines.items())
        },
        "truncated_by_time_budget": truncated,
        "violation_signatures": per_sig,
        "known_findings": finding_state,
    }
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": level,
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(real_v),
    }
    if not args.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1, default=repr)
            f.write("\n")

    print(
        f"{prop} {args.tier} seed={args.seed}: {evaluations} cases, {len(digests)} distinct non-trivial, "
        f"{len(real_v)} violations, {wall:.1f} s"
    )
    if reported:
        return 1
    if harness_v or harness_errors:
        for v in harness_v[:3]:
            print("HARNESS-ERROR:", v["case"], v["message"][:500])
            print(v["data"].get("traceback", "")[-1500:])
        for h in harness_errors[:3]:
            print("HARNESS-ERROR:", h)
        return 2
    if missing:
        print("INCONCLUSIVE: never observed:", ", ".join(missing))
        return 2
    return 0
