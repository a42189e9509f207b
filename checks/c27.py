"""C27: a bulk build runs the build tool exactly once per recipe, with the arguments given, and accounts for every recipe."""

from __future__ import annotations

import json
import os
import random
import shutil
import time
from typing import Any, Callable

from lib.core import Obs, Violation

PROP = "C27"
LEVEL = "fault_enumeration"
RULE = (
    "Random directory trees of 1-14 recipes (names with spaces and shell characters) are built with random extra arguments. A "
    "stand-in rattler-build records its argv and behaves as scripted per recipe: any exit code, error lines, delays, death by "
    "signal, undecodable or very long output, hanging past the time limit. The log of runs, the report on stdout, the debug "
    "log and the exit status are compared with the script. A case is non-trivial if at least two recipes ran and one failed."
)
ANCHORS = ["conda_recipe_manager/commands/rattler_bulk_build.py"]
COUNTS = {"quick": 320, "thorough": 6000}
REQUIRED = ["runs", "failed_builds", "shell_characters", "timeouts", "signals", "undecodable", "debug_logs", "no_files", "reordered", "tool_missing"]
ASSUMPTIONS = ["rattler-build is a stand-in that records its arguments; the time limit constant of the command is lowered for the cases that hang."]

TOOL = r"""#!/bin/bash
log="$VERIF_BUILD_LOG"
f=$(mktemp "$log/run.XXXXXXXXXX")
printf '%s\0' "$@" > "$f.tmp"
rm -f "$f"
mv "$f.tmp" "$f.argv"
recipe="$3"
d=$(dirname "$recipe")
[ -f "$d/out" ] && cat "$d/out"
[ -f "$d/err" ] && cat "$d/err" >&2
[ -f "$d/sleep" ] && sleep "$(cat "$d/sleep")"
touch "$f.end"
[ -f "$d/kill" ] && kill -9 $$
[ -f "$d/code" ] && exit "$(cat "$d/code")"
exit 0
"""

NAMES = ["foo-feedstock", "bar", "with space", "a$b", "q'uote", 'd"q', "semi;colon", "amp&er", "st*r", "(paren)", "ünï", "x" * 60, "-dash", "back`tick`", "$(touch pwned)", "a\\b", "new", ".hidden", ".ci_support/x", "..data", "recipe.yaml.d", "UPPER", "_x", "1.0"]
ARGS = ["--render-only", "-v", "--channel=conda-forge", "a b", "--experimental", "$HOME", "x;y", "--target-platform", "linux-64", "it's", '"q"', "*", "--output-dir", "/tmp/x y", "", "a|b", ">out",
        "{a,b}", "--set", "k=v w", "~"]
ERRS = ["Error: solver failed", "Error:   boom", "Error: × cannot build", "Error: same", "Error: missing field"]


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from click.testing import CliRunner

    from conda_recipe_manager.commands import rattler_bulk_build as M

    base = os.path.join(obs.scratch, f"c{i}")
    shutil.rmtree(base, ignore_errors=True)
    root = os.path.join(base, rng.choice(["recipes", "my recipes", "r;m"]))
    bin_ = os.path.join(base, "bin")
    log = os.path.join(base, "log")
    for d in (root, bin_, log):
        os.makedirs(d)
    missing = rng.random() < 0.04
    if not missing:
        with open(os.path.join(bin_, "rattler-build"), "w", encoding="utf-8") as f:
            f.write(TOOL)
        os.chmod(os.path.join(bin_, "rattler-build"), 0o755)
    n = rng.choice([0, 1, 2, 3, 5, 8, 14]) if rng.random() < 0.9 else 1
    hang_case = rng.random() < 0.12 and hasattr(M, "DEFAULT_RATTLER_BUILD_TIMEOUT")
    plan: dict[str, dict[str, Any]] = {}
    for name in rng.sample(NAMES, n):
        rel = os.path.join(name, *(["recipe"] if rng.random() < 0.5 else []))
        d = os.path.join(root, rel)
        os.makedirs(d)
        with open(os.path.join(d, "recipe.yaml"), "w", encoding="utf-8") as f:
            f.write("package:\n  name: x\n")
        p: dict[str, Any] = {"code": 0, "errors": []}
        if rng.random() < 0.5:
            p["code"] = rng.choice([1, 1, 2, 43, 101, 127, 255])
            p["errors"] = [rng.choice(ERRS) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        elif rng.random() < 0.2:
            p["errors"] = [rng.choice(ERRS)]  # errors are printed, but the build succeeds
        noise = rng.choice([b"", b"warning: x\n", b"\xff\xfe not utf-8 \x80\n", b"x" * 200_000 + b"\n"])
        if b"\xff" in noise:
            obs.count("undecodable")
        with open(os.path.join(d, "err"), "wb") as fb:
            fb.write(noise + "".join(f"{e}\n" for e in p["errors"]).encode())
        if rng.random() < 0.3:
            with open(os.path.join(d, "out"), "wb") as fb:
                fb.write(rng.choice([b"{}\n", b"\x80\x81\n", b"y" * 100_000, b"Error: not on stderr\n"]))
        if rng.random() < 0.5:
            with open(os.path.join(d, "sleep"), "w", encoding="utf-8") as f:
                f.write(str(round(rng.random() * 0.15, 3)))
        if hang_case and rng.random() < 0.4:
            p["code"], p["errors"] = 43, None
            with open(os.path.join(d, "sleep"), "w", encoding="utf-8") as f:
                f.write("30")
            obs.count("timeouts")
        elif rng.random() < 0.07:
            p["code"] = -9
            open(os.path.join(d, "kill"), "w", encoding="utf-8").close()
            obs.count("signals")
        elif p["code"]:
            with open(os.path.join(d, "code"), "w", encoding="utf-8") as f:
                f.write(str(p["code"]))
        plan[os.path.join(rel, "recipe.yaml")] = p
    # Things that are not recipes
    for other in ("meta.yaml", "recipe.yml", "xrecipe.yaml"):
        if rng.random() < 0.3:
            with open(os.path.join(root, other), "w", encoding="utf-8") as f:
                f.write("a: 1\n")
    extra = [rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    # Only arguments the command does not take for itself
    extra = [a for a in extra if not a.startswith(("-m", "-t", "-l"))]
    opts: list[str] = []
    rate = rng.choice([None, None, 0, 0.25, 0.5, 0.75, 1])
    if rate is not None:
        opts += ["--min-success-rate", str(rate)] if rng.random() < 0.5 else ["-m", str(rate)]
    truncate = rng.random() < 0.3
    if truncate:
        opts.append(rng.choice(["--truncate", "-t"]))
    debug = os.path.join(base, "debug log.json") if rng.random() < 0.5 else None
    if debug:
        opts += [rng.choice(["--debug-log", "-l"]), debug]
    argv = [*opts, root, "--", *extra] if extra else [*opts, root]
    obs.data(argv=argv, plan=plan)

    old = {k: os.environ.get(k) for k in ("PATH", "VERIF_BUILD_LOG")}
    old_limit = getattr(M, "DEFAULT_RATTLER_BUILD_TIMEOUT", None)
    try:
        os.environ["PATH"] = bin_ + os.pathsep + "/usr/bin:/bin"
        os.environ["VERIF_BUILD_LOG"] = log
        if hang_case:
            M.DEFAULT_RATTLER_BUILD_TIMEOUT = 2
        t0 = time.time()
        res = CliRunner().invoke(M.rattler_bulk_build, argv)
        took = time.time() - t0
    finally:
        if old_limit is not None:
            M.DEFAULT_RATTLER_BUILD_TIMEOUT = old_limit
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        raise Violation(f"the command failed: {type(res.exception).__name__}: {res.exception}", "exception")
    if hang_case and took > 25 and any(p["errors"] is None for p in plan.values()):
        raise Violation(f"a build that hangs was not stopped at the time limit ({took:.0f} s)", "time limit")

    # exactly once, with the arguments intact
    runs: dict[str, int] = {}
    ends: list[tuple[float, str]] = []
    for fn in os.listdir(log):
        if not fn.endswith(".argv"):
            continue
        with open(os.path.join(log, fn), "rb") as fb:
            got = [x.decode("utf-8", "surrogateescape") for x in fb.read().split(b"\0")[:-1]]
        if got[:2] != ["build", "-r"] or got[3:] != extra:
            raise Violation(f"rattler-build was run with {got!r}, expected build -r <recipe> {extra!r}", "arguments")
        rel = os.path.relpath(got[2], root)
        runs[rel] = runs.get(rel, 0) + 1
        obs.count("runs")
        end = os.path.join(log, fn[: -len(".argv")] + ".end")
        if os.path.exists(end):
            ends.append((os.stat(end).st_mtime, rel))
    if not missing and runs != {k: 1 for k in plan}:
        raise Violation(f"the recipes were built {runs}, expected each of {sorted(plan)} once", "exactly once")
    order = [r for _, r in sorted(ends)]
    if order != sorted(order):
        obs.count("reordered")
        obs.seen("completion_orders", "|".join(order))
    if any(c in k for k in plan for c in " $'\";&*()`\\"):
        obs.count("shell_characters")
    if os.path.exists(os.path.join(obs.scratch, "pwned")) or os.path.exists("pwned"):
        raise Violation("a recipe's path was run as a command", "injection")

    if not plan:
        obs.count("no_files")
        if res.exit_code != 3:
            raise Violation(f"exit status {res.exit_code} without recipes, expected 3", "status")
        return
    try:
        rep = json.loads(res.stdout)
    except ValueError as e:
        raise Violation(f"stdout is not JSON: {res.stdout[:300]!r}", "stdout") from e
    if missing:
        obs.count("tool_missing")
        if rep["statistics"]["total_errors"] != len(plan):
            raise Violation("builds without a build tool are not counted as errors", "missing tool")
        return
    st = rep["statistics"]
    bad = sorted(k for k, p in plan.items() if p["code"] != 0)
    obs.count("failed_builds", len(bad))
    total = len(plan)
    want = {"total_recipe_files": total, "total_recipes_processed": total, "total_errors": len(bad)}
    for k, v in want.items():
        if st[k] != v:
            raise Violation(f"{k} is {st[k]}, expected {v}", "statistics")
    if abs(st["percent_errors"] - len(bad) / total) > 0.0051 or abs(st["percent_success"] - (total - len(bad)) / total) > 0.0051:
        raise Violation(f"percentages {st['percent_errors']}/{st['percent_success']} for {len(bad)} errors of {total}", "percentages")
    t = st["timings"]
    if not 0 <= t["total_exec_time"] <= took + 0.01 or abs(t["avg_recipe_time"] - t["total_exec_time"] / total) > 0.02 or not t["thread_pool_size"] >= 1:
        raise Violation(f"timings {t} for {total} recipes in {took:.2f} s", "timings")
    if truncate != ("recipes_with_build_error_code" not in rep):
        raise Violation("the list of failed recipes does not follow --truncate", "truncate")
    if not truncate and sorted(rep["recipes_with_build_error_code"]) != bad:
        raise Violation(f"failed recipes {sorted(rep['recipes_with_build_error_code'])}, expected {bad}", "failed recipes")
    hist: dict[str, int] = {}
    per_error: dict[str, set[str]] = {}
    n_timeout = 0
    for k, p in plan.items():
        if p["errors"] is None:
            n_timeout += 1
            continue
        for e in p["errors"]:
            hist[e] = hist.get(e, 0) + 1
            per_error.setdefault(e, set()).add(k)
    got_hist = dict(rep["error_histogram"])
    other = {k: v for k, v in got_hist.items() if k not in hist}
    if {k: got_hist.get(k) for k in hist} != hist or sum(other.values()) != n_timeout:
        raise Violation(f"the error histogram is {got_hist}, expected {hist} and {n_timeout} time-outs", "histogram")
    limit = 0.8 if rate is None else rate
    ok = st["percent_success"] >= limit
    if res.exit_code != (0 if ok else 42):
        raise Violation(f"exit status {res.exit_code} with {st['percent_success']} successful, required {limit}", "status")
    if rep["info"] != {"command_name": "rattler-bulk-build", "directory": os.path.basename(root)}:
        raise Violation(f"info is {rep['info']}", "info")
    if debug:
        obs.count("debug_logs")
        if not os.path.isfile(debug):
            raise Violation("there is no debug log", "debug log")
        with open(debug, encoding="utf-8") as f:
            d = json.load(f)
        seen = {e["error"]: e for e in d["errors"]}
        if len(seen) != len(d["errors"]) or set(seen) != set(got_hist):
            raise Violation("the debug log does not list each error once", "debug log")
        for e, recipes in per_error.items():
            if sorted(seen[e]["recipes"]) != sorted(recipes) or seen[e]["recipe_count"] != len(recipes):
                raise Violation(f"the debug log lists {seen[e]} for {e!r}, expected {sorted(recipes)}", "debug log")
        counts = [e["recipe_count"] for e in d["errors"]]
        if counts != sorted(counts, reverse=True):
            raise Violation("the debug log is not ordered by the number of recipes", "debug log order")
    if len(plan) > 1 and bad:
        obs.distinct((sorted(plan), argv[:-1]))
        obs.sample({"recipes": sorted(plan)[:4], "extra": extra, "errors": len(bad)}, 1)
    shutil.rmtree(base, ignore_errors=True)
