"""C13: bulk conversion accounts for every recipe and writes only outputs."""

from __future__ import annotations

import json
import os
import random
import subprocess
import sys
from typing import Any, Callable, Optional

from checks import c10
from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C13"
LEVEL = "exploration"
RULE = (
    "Random directory trees of recipe files: valid ones, ones that convert with warnings or errors, V1 recipes, malformed ones, files that are not UTF-8, directories and dangling links under the name of a recipe, read-only outputs, other "
    "files. The convert command runs on the tree, on single files and on trees without recipes, with all options. Its exit status, output and statistics are compared with an accounting derived from converting each file on its own; the "
    "tree is compared byte by byte: only the requested outputs may have changed. A case is non-trivial if a bulk run has recipes of at least three outcomes."
)
ANCHORS = ["conda_recipe_manager/commands/convert.py"]
COUNTS = {"quick": 260, "thorough": 6000}
REQUIRED = ["bulk", "single", "empty", "ok", "warnings", "errors", "v1", "malformed", "unreadable", "directory", "dangling", "unwritable", "outputs", "no_output", "truncated", "debug", "threshold_missed", "threshold_met", "threshold_edge",
            "one_recipe_directory", "real_process", "thousand"]
ASSUMPTIONS = ["The conversion of each single file is decided by C10; here it is that of a fresh object.", "In bulk runs the output is a file name, as documented."]

V1 = "schema_version: 1\n\ncontext:\n  name: x\n\npackage:\n  name: ${{ name }}\n  version: 1.0\n"


class Recipe:
    """What a file must be counted as."""

    def __init__(self, data: Any, kind: str) -> None:
        self.data, self.kind = data, kind


def outcome(data: bytes) -> tuple[int, Optional[str], list[str], list[str], list[str]]:
    """Exit code, converted text, exceptions, errors and warnings of one file."""
    from conda_recipe_manager.parser.enums import SchemaVersion
    from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
    from conda_recipe_manager.types import MessageCategory

    try:
        text = data.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
    except UnicodeDecodeError:
        return 104, None, ["Failed to read"], [], []
    try:
        p = RecipeParserConvert(RecipeParserConvert.pre_process_recipe_text(text))
    except Exception:
        return 102, None, ["parsing"], [], []
    if p.get_schema_version() != SchemaVersion.V0:
        return 106, None, ["Only V0"], [], []
    try:
        out, tbl, _ = p.render_to_v1_recipe_format()
    except Exception:
        return 103, None, ["converting"], [], []
    errors, warnings = list(tbl.get_messages(MessageCategory.ERROR)), list(tbl.get_messages(MessageCategory.WARNING))
    return 101 if errors else 100 if warnings else 0, out, [], errors, warnings


def make(rng: random.Random, kind: str) -> bytes:
    if kind == "v1":
        return V1.encode()
    if kind == "malformed":
        return rng.choice(["a: [1, 2\n", "package:\n  name: 'x\n", "- a\n- b\n", "a:\n  b: {\n", "package: {{ x\n  - {\n", "{% set a = %}\na: *x\n", "\t- {]\n"]).encode()
    if kind == "unreadable":
        return b"package:\n  name: \xff\xfe\n"
    if kind == "ok":
        n = rng.randint(0, 99)
        return f'{{% set version = "1.{n}" %}}\n\npackage:\n  name: x{n}\n  version: {{{{ version }}}}\n\nbuild:\n  number: {n}\n\nabout:\n  license: MIT\n  summary: é {n}\n'.encode()
    if kind == "errors":
        return b"package:\n  name: x\n  version: 1\n\nbuild:\n  script_env:\n    - A=b=c\n\nabout:\n  license: MIT\n"
    doc = R.recipe_v0(rng, com=0.2)
    if rng.random() < 0.5:
        c10.enrich(doc, rng, Obs())
    text = R.emit(doc)
    return (text.replace("\n", "\r\n") if rng.random() < 0.1 else text).encode()


def snapshot(root: str) -> dict[str, Any]:
    snap: dict[str, Any] = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            snap[os.path.relpath(os.path.join(d, n), root)] = "directory"
        for n in files:
            p = os.path.join(d, n)
            if os.path.islink(p):
                snap[os.path.relpath(p, root)] = ("link", os.readlink(p))
                if not os.path.exists(p):
                    continue
                continue
            with open(p, "rb") as f:
                snap[os.path.relpath(p, root)] = f.read()
    return snap


def run(args: list[str], cwd: str, real: bool) -> tuple[int, str, str]:
    if real:
        r = subprocess.run([sys.executable, "-c", "from conda_recipe_manager.commands.conda_recipe_manager import conda_recipe_manager as m; m()", "convert", *args], cwd=cwd, capture_output=True, timeout=100)
        return r.returncode, r.stdout.decode(), r.stderr.decode()
    from click.testing import CliRunner

    from conda_recipe_manager.commands.convert import convert

    old = os.getcwd()
    os.chdir(cwd)
    try:
        res = CliRunner().invoke(convert, args)
    finally:
        os.chdir(old)
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        import traceback

        return 1, res.stdout, "".join(traceback.format_exception(res.exception))
    return res.exit_code, res.stdout, res.stderr


def compare(before: dict[str, Any], after: dict[str, Any], outputs: dict[str, str]) -> None:
    want = dict(before)
    for p, t in outputs.items():
        want[p] = t.encode("utf-8")
    for p in sorted(set(want) | set(after)):
        if p not in after:
            raise Violation(f"{p} {'was not written' if p in outputs else 'is gone'}", "file missing")
        if p not in want:
            raise Violation(f"{p} was written without being asked for", "extra file")
        if after[p] != want[p]:
            raise Violation(f"{p} {'has not the converted recipe' if p in outputs else 'has changed'}", "file content", got=repr(after[p])[:2000], want=repr(want[p])[:2000])


def case(i: int, rng: random.Random, obs: Obs) -> None:
    root = os.path.join(obs.scratch, f"t{i}")
    os.makedirs(root)
    if rng.random() < 0.3:
        return single(root, rng, obs, rng.random() < 0.06)
    bulk(root, rng, obs, rng.random() < 0.04)


def single(root: str, rng: random.Random, obs: Obs, real: bool) -> None:
    kind = rng.choice(["ok", "rich", "rich", "errors", "v1", "malformed", "unreadable"])
    data = make(rng, kind)
    name = rng.choice(["meta.yaml", "recipe.yml", "a b.yaml"])
    os.makedirs(os.path.join(root, "in", "out"))
    with open(os.path.join(root, "in", name), "wb") as f:
        f.write(data)
    obs.count("single")
    code, text, exc, errors, warnings = outcome(data)
    args = [os.path.join("in", name)]
    outputs: dict[str, str] = {}
    out: Optional[str] = None
    if rng.random() < 0.6:
        out = rng.choice(["new.yaml", "in/recipe.yaml", "in/out/recipe.yaml", "in/old.yaml"])
        if out.endswith("old.yaml") :
            with open(os.path.join(root, out), "w", encoding="utf-8") as f:
                f.write("old content, which is longer than a recipe\n" * 200)
        if rng.random() < 0.15:
            out = "in/out"
            obs.count("unwritable")
            if text is not None:
                code = None  # type: ignore[assignment]
        elif text is not None:
            outputs[out] = text
        args += rng.choice([["-o", out], ["--output", out]])
    debug = rng.random() < 0.2
    if debug:
        args.append("--debug")
        obs.count("debug")
    if real:
        obs.count("real_process")
    before = snapshot(root)
    got, stdout, stderr = run(args, root, real)
    obs.data(args=args, kind=kind, data=repr(data), exit=got, stdout=stdout, stderr=stderr)
    compare(before, snapshot(root), outputs)
    if code is None:
        if got == 0 or "Traceback" in stderr:
            raise Violation(f"a file that can't be written: exit status {got}", "unwritable")
        return
    if got != code:
        raise Violation(f"exit status {got}, expected {code} ({kind})", "single exit")
    want_out = text + "\n" if text is not None and out is None else ""
    if stdout != want_out:
        raise Violation("the standard output is not the converted recipe", "single stdout", want=want_out)
    for m in [f"[WARNING]: {w}" for w in warnings] + [f"[ERROR]: {e}" for e in errors] + exc:
        if m not in stderr:
            raise Violation(f"{m!r} is not reported", "single messages")
    if (errors or warnings) and f"{len(errors)} error{'' if len(errors) == 1 else 's'} and {len(warnings)} warning{'' if len(warnings) == 1 else 's'} were found." not in stderr:
        raise Violation("the totals are not reported", "single totals")


def bulk(root: str, rng: random.Random, obs: Obs, real: bool, kinds: Optional[list[str]] = None, rate: Optional[str] = None) -> None:
    tree = os.path.join(root, "tree")
    os.makedirs(tree)
    n = rng.choices([0, 1, rng.randint(2, 5), rng.randint(6, 12)], [4, 8, 48, 40])[0] if kinds is None else len(kinds)
    output = rng.choice([None, "recipe.yaml", "recipe.yaml", "out.txt"]) if kinds is None else None
    mix = rng.choice([["ok"], ["ok", "rich"], ["ok", "rich", "errors", "v1", "malformed", "unreadable", "directory", "dangling"]])
    recipes: dict[str, tuple[int, Optional[str], list[str], list[str], list[str]]] = {}
    seen: set[str] = set()
    outputs: dict[str, str] = {}
    for k in range(n):
        d = rng.choice([f"f{k}-feedstock/recipe", f"f{k}", f"deep/er/f{k}/a b", f"f{k}/é"]) if k or rng.random() < 0.7 else ""
        rel = os.path.join(d, "meta.yaml")
        os.makedirs(os.path.join(tree, d), exist_ok=True)
        kind = kinds[k] if kinds else rng.choice(mix)
        full = os.path.join(tree, rel)
        if kind == "directory":
            os.mkdir(full)
            recipes[rel] = (104, None, ["Failed to read"], [], [])
        elif kind == "dangling":
            os.symlink("nowhere/meta.yaml", full)
            recipes[rel] = (104, None, ["Failed to read"], [], [])
        else:
            data = make(rng, kind)
            with open(full, "wb") as f:
                f.write(data)
            recipes[rel] = outcome(data)
        code, text, *_ = recipes[rel]
        obs.count({0: "ok", 100: "warnings", 101: "errors", 102: "malformed", 104: "unreadable", 106: "v1"}.get(code, f"code_{code}"))
        if kind in ("directory", "dangling"):
            obs.count(kind)
        if output and text is not None:
            if kinds is None and rng.random() < 0.05:
                os.mkdir(os.path.join(tree, d, output))
                recipes[rel] = (5, None, ["Failed to write"], recipes[rel][3], recipes[rel][4])
                obs.count("unwritable")
            else:
                outputs[os.path.join("tree", d, output)] = text
        if kinds is None and rng.random() < 0.3:
            for other in ("conda_build_config.yaml", "meta.yaml.bak", "recipe.yaml" if output != "recipe.yaml" else "build.sh"):
                with open(os.path.join(tree, d, other), "w", encoding="utf-8") as f:
                    f.write("x: 1\n")
        if output and text is not None and rng.random() < 0.2 and os.path.join("tree", d, output) in outputs:
            with open(os.path.join(tree, d, output), "w", encoding="utf-8") as f:
                f.write("# old\n" * 3000)
    args = [rng.choice(["tree", os.path.join(root, "tree"), "./tree"])]
    if output:
        args += ["-o", output]
        obs.count("outputs")
    else:
        obs.count("no_output")
    truncate = rng.random() < 0.3
    if truncate:
        args.append("-t")
        obs.count("truncated")
    if rng.random() < 0.15 and kinds is None:
        args.append("-d")
        obs.count("debug")
    failed = {r for r, (_, _, exc, err, _) in recipes.items() if exc or err}
    good = n - len(failed)
    threshold = 0.8
    if rate is not None or rng.random() < 0.7:
        exact = good / n if n else 1.0
        text_rate = rate if rate is not None else rng.choice(["0", "1", "0.5", repr(exact), repr(min(1.0, exact + 0.002)), repr(max(0.0, exact - 0.002)), str(rng.random())])
        threshold = float(text_rate)
        if abs(threshold - exact) < 0.003:
            obs.count("threshold_edge")
        args += ["--min-success-rate", text_rate]
    if real:
        obs.count("real_process")
    before = snapshot(root)
    got, stdout, stderr = run(args, root, real)
    obs.data(args=args, recipes={k: v[0] for k, v in recipes.items()}, exit=got, stdout=stdout, stderr=stderr[-3000:])
    compare(before, snapshot(root), outputs)
    if n == 0:
        obs.count("empty")
        if got != 2 or stdout:
            raise Violation(f"a directory without recipes: exit status {got}", "empty")
        return
    obs.count("bulk")
    if n == 1:
        obs.count("one_recipe_directory")
    want_code = 0 if good / n >= threshold else 42
    obs.count("threshold_met" if want_code == 0 else "threshold_missed")
    if got != want_code:
        raise Violation(f"exit status {got}, expected {want_code}: {good} of {n} converted, {threshold} required", "bulk exit")
    try:
        report = json.loads(stdout)
    except json.JSONDecodeError as e:
        raise Violation(f"the standard output is not a JSON document: {e}", "bulk stdout")
    account(report, recipes, truncate, n, good)
    if report["info"].get("directory") != "tree" or report["info"].get("command_name") != "convert":
        raise Violation("the report names another directory", "info")
    seen = {str(v[0]) for v in recipes.values()}
    obs.seen("outcomes", "/".join(sorted(seen)))
    if len(seen) >= 3:
        obs.distinct((sorted(recipes), args, stdout))
        obs.sample({"args": args, "statistics": report["statistics"]}, 1)


def account(report: dict[str, Any], recipes: dict[str, Any], truncate: bool, n: int, good: int) -> None:
    s = report["statistics"]
    with_exc = sorted(r for r, v in recipes.items() if v[2])
    with_err = sorted(r for r, v in recipes.items() if v[3])
    with_warn = sorted(r for r, v in recipes.items() if v[4])
    hist: list[dict[str, int]] = [{}, {}]
    for v in recipes.values():
        for k in (0, 1):
            for m in v[3 + k]:
                hist[k][m] = hist[k].get(m, 0) + 1
    want = {
        "total_recipe_files": n, "total_recipes_processed": n, "total_errors": sum(hist[0].values()), "total_warnings": sum(hist[1].values()), "num_recipe_exceptions": len(with_exc), "num_recipe_errors": len(with_err),
        "num_recipe_warnings": len(with_warn), "num_recipe_success": good, "percent_recipe_exceptions": round(len(with_exc) / n, 2), "percent_recipe_errors": round(len(with_err) / n, 2),
        "percent_recipe_warnings": round(len(with_warn) / n, 2), "percent_recipe_success": round(good / n, 2),
    }
    if not set(with_exc) & set(with_err):
        want["num_theoretical_recipe_success"] = good
        want["percent_recipe_theoretical_success"] = round(good / n, 2)
    for k, w in want.items():
        if s.get(k) != w:
            raise Violation(f"the statistics have {k}: {s.get(k)}, expected {w}", f"statistics {k}")
    if sum(report["exception_histogram"].values()) != len(with_exc):
        raise Violation(f"{len(with_exc)} recipes failed with an exception, the histogram has {report['exception_histogram']}", "exception histogram")
    if report["error_histogram"] != hist[0] or report["warnings_histogram"] != hist[1]:
        raise Violation("the histograms of messages are not those of the recipes", "histogram", want=hist)
    for key, w in (("recipes_with_exceptions", with_exc), ("recipes_with_errors", with_err), ("recipes_with_warnings", with_warn)):
        if truncate:
            if key in report:
                raise Violation(f"{key} is not left out", "truncate")
        elif sorted(report.get(key, ["missing"])) != w:
            raise Violation(f"{key}: {report.get(key)}, expected {w}", f"list {key}")


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    def many(o: Obs) -> None:
        """One failure among many must not be rounded away."""
        rng = random.Random("c13")
        for k, (kinds, rate) in enumerate([(["ok"] * 299 + ["malformed"], "1"), (["ok"] * 199 + ["unreadable"], "0.996"), (["ok"] * 700 + ["v1"], "0.9999")]):
            root = os.path.join(o.scratch, f"many{k}")
            os.makedirs(root)
            bulk(root, rng, o, False, kinds, rate)
            o.count("thousand", len(kinds))

    return [("many recipes", many)]
