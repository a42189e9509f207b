"""C15: bump-recipe produces a recipe for the new version: right version, build number and hashes, and nothing else changed."""

from __future__ import annotations

import copy
import os
import random
import re
from typing import Any

from lib import bump as B
from lib import recipes as R
from lib import web
from lib.core import Obs, Violation

PROP = "C15"
LEVEL = "exploration"
RULE = (
    "Generated V0 and V1 recipes (version in a variable or literal, 0-4 sources with hashes in fields or variables, build "
    "numbers present/absent/in a variable) whose sources are on a loopback server that serves different archives per version. "
    "The command runs with random options; the file it writes is read with a YAML loader, variables are substituted by the "
    "check, and compared with the old recipe after the documented changes; all other lines must be the old ones. "
    "A case is non-trivial if the recipe was bumped."
)
ANCHORS = ["conda_recipe_manager/commands/bump_recipe.py"]
COUNTS = {"quick": 2400, "thorough": 60000}
REQUIRED = ["bumped_version", "bumped_build", "dry_runs", "refused", "hash_in_variable", "hash_in_field", "hash_added", "several_sources", "build_added",
            "v1", "both_flags", "hash_type_key", "same_version", "requests_for_new_version", "usage_errors"]
ASSUMPTIONS = [
    "A source has a single URL; `version`, when it is a variable, is what `/package/version` uses.",
    "Replacing a scalar may drop the comment on its line (pinned by the tests).",
]


def case(i: int, rng: random.Random, obs: Obs) -> None:
    srv = web.server()
    new = R.version(rng) + rng.choice(["", ".1", ".10", "rc1", ".post1"]) if rng.random() < 0.8 else rng.choice(["1.10", "2.0", "2024.10", "1_0", "3"])
    b = B.make(rng, srv, new)
    if rng.random() < 0.05 and b.version_style != "missing":
        new = b.version
    B.serve(b, srv)
    path = os.path.join(obs.scratch, "recipe.yaml")
    B.write(path, b.text)
    flags = rng.choice([["-t", new], ["-t", new], ["-t", new], ["--build-num"], ["-b"], ["-b", "-t", new], ["--target-version", new]])
    full = len(flags) > 1
    dry = rng.random() < 0.15
    args = flags + (["--dry-run"] if dry else []) + ["-i", "0.001", path]
    obs.data(text=b.text, args=args)
    if rng.random() < 0.03:
        usage(path, b.text, rng, obs)
    files = set(os.listdir(obs.scratch))
    res = B.run_cli(args)
    after = B.read(path).decode()
    if set(os.listdir(obs.scratch)) - files - {d for d in os.listdir(obs.scratch) if d.startswith("crm_artifact")}:
        raise Violation(f"new files: {set(os.listdir(obs.scratch)) - files}", "new files")
    code = res.exit_code
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        raise Violation(f"the command crashed: {res.exception!r}", f"crash {type(res.exception).__name__}") from res.exception
    # Which build number comes out?
    if b.build == "nobuild":
        want_code = 106
    elif not full and b.build in ("jinja", "text"):
        want_code = 106
    else:
        want_code = 0
    if code != want_code:
        raise Violation(f"exit code {code}, expected {want_code}: {res.output[-300:]}", f"exit code {code} for {want_code}")
    if code != 0:
        if after != b.text:
            raise Violation("a refused bump changed the file", "refused but written")
        obs.count("refused")
        return
    if dry:
        if after != b.text:
            raise Violation("a dry run changed the file", "dry run")
        obs.count("dry_runs")
        after = res.output
        if after.endswith("\n"):
            after = after[:-1]
    obs.data(after=after)
    number = 0 if full or b.build is None else b.build + 1
    check(b, after, new if full else None, number, obs)
    # Requests: only for the new version, once per source
    got = sorted(p for _, _, p in srv.log)
    want = sorted(s.url.replace("@V@", new) for s in b.sources) if full else []
    if got != want:
        raise Violation(f"requested {got}, expected {want}", "requests")
    if full:
        obs.count("requests_for_new_version", len(got))
    obs.count("bumped_version" if full else "bumped_build")
    if b.v1:
        obs.count("v1")
    if "-b" in flags and full:
        obs.count("both_flags")
    if len(b.sources) > 1:
        obs.count("several_sources")
    if b.build is None:
        obs.count("build_added")
    if "hash_type" in b.text:
        obs.count("hash_type_key")
    if new == b.version and full:
        obs.count("same_version")
    obs.distinct((b.text, flags[:1]))
    # Bumping again to the same version changes nothing but what it has to
    if not dry and full and rng.random() < 0.2:
        again = B.run_cli(["-t", new, "-i", "0.001", path])
        if again.exit_code != 0 or B.read(path).decode() != after:
            raise Violation("bumping to the version the recipe already has changes it", "idempotence", again=B.read(path).decode())
        obs.count("idempotent")


def check(b: B.Bumpable, after: str, new: Any, number: int, obs: Obs) -> None:
    from conda_recipe_manager.parser.recipe_parser import RecipeParser

    cleaned = re.sub(r"\{\{ hash_type \}\}:", "sha256:", b.text.replace("{% set hash_type = \"sha256\" %}\n", ""))
    # Expected effective object
    old_vars = B.variables(cleaned, b.v1)
    new_vars = dict(old_vars)
    if new is not None and b.version_style == "var":
        new_vars["version"] = new
    obj = R.strip_nl(R.yaml_oracle(cleaned))
    obj.pop("context", None)
    got_obj = R.strip_nl(R.yaml_oracle(after))
    got_vars = B.variables(after, b.v1)
    got_obj.pop("context", None)
    raw_sha = {}
    for s in b.sources:
        src = R.get_path(obj, s.path)
        if "sha256" in src:
            raw_sha[s.path] = src["sha256"]
    want = B.subst(obj, new_vars)
    want["build"]["number"] = number
    touched = {"/build/number"}
    if new is not None:
        if b.version_style != "var":
            want["package"]["version"] = new
            touched.add("/package/version")
        for s in b.sources:
            R.get_path(want, s.path)["sha256"] = B.sha_of(s, new)
            touched.add(f"{s.path}/sha256")
            if not s.has_sha:
                obs.count("hash_added")
    got = B.subst(got_obj, got_vars)
    d = R.diff_obj(want, got)
    if d:
        raise Violation(f"after the bump: {d}", "wrong: " + re.sub(r"\d+", "N", d.split(":")[0]))
    # Variables: only `version` and the variable that holds the hash may change.
    may = {"version"} if new is not None and b.version_style == "var" else set()
    if new is not None and len(b.sources) == 1:
        raw = raw_sha.get(b.sources[0].path, "")
        m = re.match(r"\$?\{\{\s*(\w+)\s*\}\}$", str(raw))
        if m:
            may.add(m.group(1))
            obs.count("hash_in_variable" if got_vars.get(m.group(1)) != old_vars.get(m.group(1)) else "hash_variable_replaced")
    if list(got_vars) != list(old_vars):
        raise Violation(f"variables are {list(got_vars)}, were {list(old_vars)}", "variables")
    for k, v in old_vars.items():
        if k not in may and not R.same(v, got_vars[k]):
            raise Violation(f"variable {k} was changed from {v!r} to {got_vars[k]!r}", "variable changed")
    if "version" in may and not R.same(got_vars["version"], new):
        raise Violation(f"the version variable is {got_vars['version']!r}, expected {new!r}", "version variable")
    if any(str(v) and not str(v).startswith(("{", "$")) for v in raw_sha.values()):
        obs.count("hash_in_field")
    # All other lines stay.
    base = RecipeParser(cleaned).render()
    touched |= {f"/context/{k}" for k in may}
    a, c = rest(base, touched, may, b.v1), rest(after, touched, may, b.v1)
    if a != c:
        k = next((k for k, (x, y) in enumerate(zip(a, c)) if x != y), min(len(a), len(c)))
        raise Violation(f"another line changed: {a[k:k+1]} -> {c[k:k+1]}", "other line")


def rest(text: str, touched: set[str], may: set[str], v1: bool) -> list[str]:
    at = R.line_paths(text)
    out = []
    for n, ln in enumerate(text.split("\n")):
        p = at.get(n, "")
        if not ln.strip() or p in touched:
            continue
        if not v1 and any(re.match(rf"\{{% set {v} = ", ln) for v in may):
            continue
        out.append(ln)
    return out


def usage(path: str, text: str, rng: random.Random, obs: Obs) -> None:
    for args, code in [([path], 2), (["-t", "", path], 2), (["-t", "1.0", "-i", rng.choice(["0", "-1", "x"]), path], 2), (["-t", "1.0", path + ".nope"], 2),
                       (["-t", "1.0", os.path.dirname(path)], 5)]:
        r = B.run_cli(args)
        if r.exit_code != code or B.read(path).decode() != text:
            raise Violation(f"{args[:-1]}: exit code {r.exit_code}, expected {code}", "usage")
        obs.count("usage_errors")
