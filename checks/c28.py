"""C28: the CI scripts report exactly what the logs hold and fetch exactly the selected recipes."""

from __future__ import annotations

import contextlib
import io
import json
import os
import random
import re
import runpy
import shutil
import subprocess
import sys
import time
from pathlib import Path
from typing import Any

from lib.core import Obs, REPO, Violation

PROP = "C28"
LEVEL = "exploration"
RULE = (
    "Log directories with random result objects between random log noise (time stamps, other JSON, truncated or damaged objects, stray braces, sub-directories) whose summary is "
    "recomputed by a conservation monitor; and random repository lists fetched through a stand-in for the network whose request log, failures and files written are compared with the selection. "
    "A case is non-trivial if at least two result objects or repositories were involved."
)
ANCHORS = ["scripts/parse_ci_output.py", "scripts/randomly_select_recipes.py"]
COUNTS = {"quick": 6000, "thorough": 100000}
REQUIRED = ["convert_blobs", "dry_run_blobs", "unrecognized", "unparsable", "verbose", "same_directory_twice", "subprocess_runs", "selections", "fallback_to_master", "fetch_failures",
            "excluded", "more_than_available", "empty_logs", "network_errors", "statistics_key"]
ASSUMPTIONS = [
    "Result objects have the members that the two commands print (info with command name and directory, stats), with the same percentages in each.",
    "raw.githubusercontent.com is replaced by a stand-in for requests.get.",
]

PARSE = os.path.join(REPO, "scripts/parse_ci_output.py")
SELECT = os.path.join(REPO, "scripts/randomly_select_recipes.py")


def run(script: str, args: list[str], sub: bool = False) -> tuple[int, str, str]:
    if sub:
        p = subprocess.run([sys.executable, script, *args], capture_output=True, timeout=60, check=False)
        return p.returncode, p.stdout.decode(), p.stderr.decode()
    out, err = io.StringIO(), io.StringIO()
    argv = sys.argv
    sys.argv = [script, *args]
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_path(script, run_name="__main__")
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 1
    finally:
        sys.argv = argv
    return code, out.getvalue(), err.getvalue()


# ---------------------------------------------------------------------------------------------------------------------


def stamp(rng: random.Random) -> str:
    return f"202{rng.randint(0, 9)}-{rng.randint(1, 12):02}-{rng.randint(1, 28):02}T{rng.randint(0, 23):02}:{rng.randint(0, 59):02}:{rng.randint(0, 59):02}.{rng.randint(0, 9999999):07}Z "


def blob(rng: random.Random, command: str, old: bool) -> dict[str, Any]:
    d = rng.choice(["recipes/a", "recipes/b/", "/x/y/c", "d", "recipes/a", "with space"])
    stats: dict[str, Any] = {}
    if command == "convert":
        stats = {"total_recipe_files": rng.randint(0, 900), "recipes_with_errors": rng.randint(0, 99), "total_errors": rng.randint(0, 5000),
                 "percent_recipe_exceptions": round(rng.random() * 100, 2), "percent_recipe_errors": rng.randint(0, 100), "percent_recipe_success": round(rng.random() * 100, 2),
                 "timings": {"total_exec_time": rng.random(), "x": [1, 2]}}
    else:
        stats = {"total_recipes": rng.randint(0, 900), "total_errors": rng.randint(0, 99), "percent_errors": round(rng.random() * 100, 2), "percent_success": rng.random() * 100, "timings": {"a": 1.5}}
    keys = list(stats)
    rng.shuffle(keys)
    out = {"info": {"command_name": command, "directory": d}, ("statistics" if old else "stats"): {k: stats[k] for k in keys}}
    if rng.random() < 0.5:
        out["error_histogram"] = {"a } {": 3, "{": 1}
    if rng.random() < 0.3:
        out = dict(reversed(list(out.items())))
    return out


def parse_case(rng: random.Random, obs: Obs) -> None:
    root = os.path.join(obs.scratch, "logs")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    per_file: dict[str, list[dict[str, Any]]] = {}
    errors: list[str] = []
    for k in range(rng.randint(0, 4)):
        name = rng.choice([f"{k}_job.txt", f"log {k}", f"{k}.log", f".hidden{k}"])
        lines: list[str] = []
        found: list[dict[str, Any]] = []
        stamped = rng.random() < 0.7
        for _ in range(rng.randint(0, 6)):
            r = rng.random()
            if r < 0.45:
                b = blob(rng, rng.choice(["convert", "rattler-bulk-build", "rattler_bulk_build"]), rng.random() < 0.25)
                lines += json.dumps(b, indent=rng.choice([2, 2, 1, 4])).split("\n")
                found.append(b)
            elif r < 0.55:
                lo = len(lines)
                lines += json.dumps(rng.choice([{"a": 1}, {"info": {"x": 1}}, {"stats": {"b": [1]}}]), indent=2).split("\n")
                errors.append(f"Could not recognize JSON object from {os.path.join(root, name)}:{lo + 1}-{len(lines)}")
                obs.count("unrecognized")
            elif r < 0.65:
                lo = len(lines)
                lines += rng.choice([["{", '  "a": ', "}"], ["{", '  "info": {"command_name": "convert"}', "  trailing text", "}"], ["{", "}}"[:1] + "x", "}"]])
                errors.append(f"Could not parse lines from {os.path.join(root, name)}:{lo + 1}-{len(lines)}")
                obs.count("unparsable")
            elif r < 0.72:
                lines += ["{", '  "info": {', '    "command_name": "convert"', "  },"]  # cut off
                lines.append("Error: process ended")
            else:
                lines += rng.choice([["Building...", ""], ['{"info": {"command_name": "convert"}}'], ["  {", "  }"], ["{ }"], ["##[group]Run x", "shell: bash -l {0}", "##[endgroup]"], ["[", "]"], ["é ünï"], ["} "]])
        per_file[name] = found
        nl = "\n" if rng.random() < 0.85 else "\r\n"
        text = "".join((stamp(rng) if stamped else "") + ln + nl for ln in lines)
        if rng.random() < 0.2:
            text = text[: len(text) - len(nl)] if text else ""
        Path(root, name).write_bytes(text.encode())
    if rng.random() < 0.3:
        Path(root, ".DS_Store").write_bytes(b"\x00\xff\x01")
    if rng.random() < 0.3:
        os.makedirs(os.path.join(root, "sub"))
        Path(root, "sub", "a.log").write_text(json.dumps(blob(rng, "convert", False), indent=2) + "\n")
    verbose = rng.random() < 0.4
    args = [root] + ([rng.choice(["-v", "--verbose"])] if verbose else [])
    obs.data(files={n: Path(root, n).read_text() for n in per_file}, args=args)
    before = {p: p.read_bytes() for p in Path(root).rglob("*") if p.is_file()}
    sub = rng.random() < 0.01
    if sub:
        obs.count("subprocess_runs")
    code, out, err = run(PARSE, args, sub)
    if code != 0:
        raise Violation(f"parse_ci_output ends with {code}: {err[-300:]}", "parse: exit code")
    if {p: p.read_bytes() for p in Path(root).rglob("*") if p.is_file()} != before:
        raise Violation("parse_ci_output changed the logs", "parse: logs changed")
    got = json.loads(out)
    blobs = [b for bs in per_file.values() for b in bs]
    conv = [b for b in blobs if b["info"]["command_name"] == "convert"]
    dry = [b for b in blobs if b["info"]["command_name"] != "convert"]
    obs.count("convert_blobs", len(conv))
    obs.count("dry_run_blobs", len(dry))
    stats = lambda b: b.get("stats", b.get("statistics"))  # noqa: E731
    obs.count("statistics_key", sum("statistics" in b for b in blobs))
    if not blobs:
        obs.count("empty_logs")
    for title, bs in (("recipe_conversion", conv), ("rattler_dry_run", dry)):
        have = dict(got["summary"]["all_stages"][title])
        keys = {k for b in bs for k, v in stats(b).items() if isinstance(v, (int, float))}
        if set(have) != keys:
            raise Violation(f"{title}: keys {sorted(have)} instead of {sorted(keys)}", "parse: keys")
        for k in keys:
            want = sum(stats(b).get(k, 0) for b in bs)
            if k.startswith("percent_"):
                if abs(have[k] - want / len(bs)) > 0.00501:
                    raise Violation(f"{title}: {k} is {have[k]}, the mean is {want / len(bs)}", "parse: mean")
            elif have[k] != want:
                raise Violation(f"{title}: {k} is {have[k]}, the sum is {want}", "parse: sum")
    tests: dict[str, int] = {}
    values: dict[tuple[str, str, str], set[Any]] = {}
    for title, bs in (("recipe_conversion", conv), ("recipe_dry_run", dry)):
        for b in bs:
            n = os.path.basename(b["info"]["directory"].rstrip("/"))
            tests[n] = tests.get(n, 0) + 1
            for f in ("percent_recipe_exceptions", "percent_recipe_errors", "percent_recipe_success", "percent_errors", "percent_success"):
                if f in stats(b):
                    values.setdefault((n, title, f), set()).add(stats(b)[f])
    sums = got["summary"]["test_summaries"]
    if {k: v["test_count"] for k, v in sums.items()} != tests or list(sums) != sorted(sums):
        raise Violation(f"tests counted { {k: v['test_count'] for k, v in sums.items()} }, the logs hold {tests}", "parse: test count")
    if any(v > 1 for v in tests.values()):
        obs.count("same_directory_twice")
    have_v = {(n, t, f): v for n, d in sums.items() for t, fs in d.items() if t != "test_count" for f, v in fs.items()}
    if set(have_v) != set(values) or any(have_v[k] not in values[k] for k in values):
        raise Violation(f"per-test values {have_v}, the logs hold {values}", "parse: test values")
    want_keys = {"summary"} | ({"raw_conversion_results", "raw_dry_run_results"} if verbose else set())
    if set(got) != want_keys:
        raise Violation(f"members {sorted(got)}", "parse: members")
    if verbose:
        obs.count("verbose")
        for k, bs in (("raw_conversion_results", conv), ("raw_dry_run_results", dry)):
            if sorted(json.dumps(b) for b in got[k]) != sorted(json.dumps(b) for b in bs):
                raise Violation(f"{k} are not the results in the logs", "parse: raw results")
    if sorted(err.splitlines()) != sorted(errors):
        raise Violation(f"messages {err.splitlines()}, expected {errors}", "parse: messages")
    if len(blobs) > 1:
        obs.distinct(out)
        obs.sample({"files": len(per_file), "results": len(blobs), "messages": len(errors)}, 1)


# ---------------------------------------------------------------------------------------------------------------------


def select_case(rng: random.Random, obs: Obs) -> None:
    import requests

    root = os.path.join(obs.scratch, "sel")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    repos = [f"org/{n}-feedstock" for n in rng.sample(["a", "b", "numpy", "py.x", "r_y", "zlib", "q-1", "libfoo", "c++", "k"], rng.randint(0, 9))]
    repos += rng.sample(["org2/a2", "org/noslash_not"], rng.randint(0, 1))
    bare = ["noslash"] if rng.random() < 0.15 else []
    plan: dict[str, Any] = {}
    for r in repos:
        body = "{% set name = \"" + r + "\" %}\n" + rng.choice(["", "# é ünï\n", "a: b\r\n", "x" * 5000 + "\n"])
        plan[r] = (rng.choice(["main", "main", "master", "both", "none", "error", "error_master", "500", "300"]), body)
    log = os.path.join(root, "requests.log")
    open(log, "w").close()
    delay = rng.random() < 0.2

    def fake_get(url: str, *a: Any, **kw: Any) -> Any:
        fd = os.open(log, os.O_WRONLY | os.O_APPEND)
        os.write(fd, (url + "\n").encode())
        os.close(fd)
        if delay:
            time.sleep((hash(url) % 7) / 1000)
        m = re.fullmatch(r"https://raw\.githubusercontent\.com/([^/]+/[^/]+)/(main|master)/recipe/meta\.yaml", url)
        if "timeout" not in kw or not m or m.group(1) not in plan:
            raise requests.exceptions.InvalidURL(url)
        mode, body = plan[m.group(1)]
        branch = m.group(2)
        if mode in ("error", "error_master") and (mode == "error" or branch == "main"):
            raise rng.choice([requests.exceptions.ConnectionError, requests.exceptions.ReadTimeout, requests.exceptions.ChunkedEncodingError])("x")
        resp = requests.Response()
        ok = mode == branch or mode == "both" or (mode == "error_master" and branch == "master")
        resp.status_code = 200 if ok else {"500": 500, "300": 300}.get(mode, 404)
        resp._content = (body + ("" if branch == "main" or mode != "both" else "# master\n") if ok else "404: Not Found").encode()
        resp.encoding = "utf-8"
        return resp

    listing = os.path.join(root, "list.tsv")
    rows = [f"{r}\t{rng.choice(['', 'A feedstock', 'says "it" all', 'é', '"quoted" at the start', '"open'])}\tpublic\t2024-01-01T00:00:00Z" for r in repos + bare]
    rng.shuffle(rows)
    if rows and rng.random() < 0.2:
        rows.append(rng.choice(rows))
    if rng.random() < 0.2:
        rows.insert(rng.randint(0, len(rows)), "")
    Path(listing).write_text("\n".join(rows) + rng.choice(["\n", ""]))
    excluded: set[str] = set()
    args = [listing]
    if rng.random() < 0.4:
        excluded = set(rng.sample(repos + ["org/other", "a"], rng.randint(0, min(3, len(repos) + 2))))
        ex = os.path.join(root, "exclude")
        Path(ex).write_text("".join(f"{' ' if rng.random() < 0.2 else ''}{e}\n" for e in sorted(excluded)))
        args = [rng.choice(["-e", "--exclude"]), ex] + args
        obs.count("excluded")
    n = rng.choice([0, 1, 2, 3, 5, 20])
    out_dir = os.path.join(root, "out")
    if rng.random() < 0.5:
        os.makedirs(out_dir)
    args += [str(n), out_dir]
    obs.data(args=args, rows=rows, plan={k: v[0] for k, v in plan.items()}, excluded=sorted(excluded))
    real, random_state = requests.get, random.getstate()
    random.seed(rng.random())
    requests.get = fake_get
    try:
        code, out, err = run(SELECT, args)
    finally:
        requests.get = real
        random.setstate(random_state)
    obs.count("selections")
    if code != 0:
        raise Violation(f"the selection ends with {code}: {err[-300:]}", "select: exit code")
    allowed = set(repos + bare) - excluded
    urls = Path(log).read_text().split()
    tried: dict[str, list[str]] = {}
    for u in urls:
        m = re.fullmatch(r"https://raw\.githubusercontent\.com/([^/]+/[^/]+)/(main|master)/recipe/meta\.yaml", u)
        if not m:
            raise Violation(f"requested {u}", "select: url")
        tried.setdefault(m.group(1), []).append(m.group(2))
    if not set(tried) <= allowed:
        raise Violation(f"fetched {sorted(set(tried) - allowed)}, which are excluded or not listed", "select: not allowed")
    target = min(n, len(allowed))
    possible = {target} | ({target - 1} if bare and bare[0] in allowed else set())
    if n >= len(allowed):
        possible = {len(allowed - set(bare))}
        obs.count("more_than_available")
    if len(tried) not in possible:
        raise Violation(f"{len(tried)} repositories picked, {n} requested of {len(allowed)}", "select: number")
    want: dict[str, bytes] = {}
    for r, branches in tried.items():
        mode, body = plan[r]
        seq = ["main"] if mode in ("main", "both") else ["main", "master"]
        if branches != seq:
            raise Violation(f"{r} ({mode}): requested {branches}, expected {seq}", "select: requests")
        if mode in ("master", "error_master"):
            obs.count("fallback_to_master")
        if mode.startswith("error"):
            obs.count("network_errors")
        if mode in ("main", "master", "both", "error_master"):
            want[r.split("/", 1)[1] + "/recipe/meta.yaml"] = body.encode()
        else:
            obs.count("fetch_failures")
    have = {str(p.relative_to(out_dir)): p.read_bytes() for p in Path(out_dir).rglob("*") if p.is_file()} if os.path.isdir(out_dir) else {}
    if have != want:
        diff = [k for k in set(have) | set(want) if have.get(k) != want.get(k)]
        raise Violation(f"files that differ from the recipes served: {sorted(diff)}", "select: files")
    m1 = re.search(r"Selected (\d+) out of (\d+)", out)
    m2 = re.search(r"Fetched (\d+) out of (\d+)", out)
    if not m1 or not m2 or int(m1.group(1)) != target or int(m1.group(2)) != n or int(m2.group(1)) != len(want) or int(m2.group(2)) != target:
        raise Violation(f"reported {out!r}: {target} of {n} picked, {len(want)} fetched", "select: report")
    if len(tried) > 1:
        obs.distinct((sorted(tried), sorted(want)))


def case(i: int, rng: random.Random, obs: Obs) -> None:
    if rng.random() < 0.85:
        parse_case(rng, obs)
    else:
        select_case(rng, obs)
