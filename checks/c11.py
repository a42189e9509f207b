"""C11: conversion is repeatable and does not touch its input."""

from __future__ import annotations

import json
import os
import random
import subprocess
import sys
from typing import Any, Callable

from checks import c10
from lib import recipes as R
from lib.core import REPO, STUBS, VERIF, Obs, Violation

PROP = "C11"
LEVEL = "exploration"
RULE = (
    "Histories of queries, edits (patches of every kind, variables, selectors, comments) and conversions of one recipe object made from a random V0 recipe. At every conversion the object's text, difference, variables and flags are "
    "compared before and after; text and messages are compared with a repeated conversion and with that of a fresh object of the same text; what was returned earlier must not change. Edits made since the last conversion are looked up in "
    "the converted document, read by PyYAML. The converted text is parsed as V1, rendered to a fixed point with the same values and edited. Fresh processes with other hash seeds must convert to the same bytes. A case is non-trivial if it "
    "has at least two conversions with an edit between them."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_parser_convert.py", "conda_recipe_manager/parser/recipe_reader.py", "conda_recipe_manager/parser/recipe_parser.py"]
COUNTS = {"quick": 400, "thorough": 12000}
REQUIRED = ["conversions", "repeated", "fresh", "edits_seen", "patch", "variable", "selector", "comment", "v1_parsed", "v1_edited", "v1_fixed_point", "hash_seeds", "earlier_results", "queries"]
ASSUMPTIONS = ["Order and number of messages are part of the result.", "Values that the parser is known to misread (see the findings of C01 and C02) are not generated."]


def state(p: Any) -> dict[str, Any]:
    return {
        "render": p.render(), "diff": p.diff(), "modified": p.is_modified(), "variables": {v: p.get_variable(v) for v in p.list_variables()}, "selectors": {s: p.get_selector_paths(s) for s in p.list_selectors()},
        "comments": p.get_comments_table(), "paths": p.list_value_paths(), "version": p.get_schema_version(),
    }


def result(p: Any) -> tuple[str, dict[str, list[str]]]:
    from conda_recipe_manager.types import MessageCategory

    out, tbl, _ = p.render_to_v1_recipe_format()
    return out, {c: list(tbl.get_messages(c)) for c in MessageCategory}, tbl


def edit(p: Any, rng: random.Random, obs: Obs, tag: str) -> list[tuple[str, Any]]:
    """Edits the recipe and returns what to find in the converted one."""
    kind = rng.randint(0, 5)
    n = rng.randint(1000, 9999)
    if kind == 0 and p.contains_value("/build"):
        if p.get_value("/build", None) in (None, "build"):
            return []
        ok = p.patch({"op": "add", "path": "/build/number", "value": n})
        obs.count("patch")
        return [("/build/number", n)] if ok and isinstance(p.get_value("/build/number"), int) and n == p.get_value("/build/number") else []
    if kind == 1:
        if not p.contains_value("/extra"):
            p.patch({"op": "add", "path": "/extra", "value": {tag: f"x{n}"}})
        elif isinstance(p.get_value("/extra"), dict):
            p.patch({"op": "add", "path": f"/extra/{tag}", "value": f"x{n}"})
        else:
            return []
        obs.count("patch")
        return [(f"/extra/{tag}", f"x{n}")]
    if kind == 2:
        p.set_variable(f"v_{tag}", f"w{n}")
        obs.count("variable")
        return [(f"/context/v_{tag}", f"w{n}")]
    if kind == 3:
        # A list member with a selector
        for path in p.get_package_paths():
            run = p.append_to_path(path, "/requirements/run")
            if p.contains_value(run) and isinstance(p.get_value(run, None), list) and not p.get_value(run) == []:
                if p.patch({"op": "add", "path": run + "/0", "value": f"dep{n}"}) and p.get_value(run + "/0") == f"dep{n}":
                    p.add_selector(run + "/0", "[win]")
                    obs.count("selector")
                    return [(run + "/0", {"if": "win", "then": f"dep{n}"})]
        return []
    if kind == 4:
        if p.contains_value("/package/name"):
            p.add_comment("/package/name", f"note {n}")
            obs.count("comment")
        return []
    if p.contains_value("/about/summary"):
        p.patch({"op": "remove", "path": "/about/summary"})
        obs.count("patch")
        return [("/about/summary", None)]
    return []


def query(p: Any, rng: random.Random, obs: Obs) -> None:
    obs.count("queries")
    k = rng.randint(0, 5)
    if k == 0:
        v = p.get_value("/", {})
        if isinstance(v, dict):
            v.clear()
    elif k == 1:
        p.find_value("python")
    elif k == 2:
        p.search_and_patch(r"nothing_matches_this", {"op": "remove"}) if rng.random() < 0.0 else p.get_dependency_paths()
    elif k == 3:
        p.diff()
    elif k == 4:
        p.list_variables()
    else:
        p.get_package_paths()


def lookup(doc: Any, path: str) -> Any:
    for part in path[1:].split("/"):
        if isinstance(doc, list) and part.isdecimal() and int(part) < len(doc):
            doc = doc[int(part)]
        elif isinstance(doc, dict):
            doc = doc.get(part)
        else:
            return None
    return doc


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert

    doc = R.recipe_v0(rng, com=rng.choice([0.1, 0.3]))
    c10.enrich(doc, rng, Obs())
    text = R.emit(doc)
    p = RecipeParserConvert(text)
    history: list[Any] = []
    obs.data(text=text, history=history)
    pending: list[tuple[str, Any]] = []
    earlier: list[tuple[Any, dict[str, list[str]]]] = []
    conversions, edited = 0, False
    for step in range(rng.randint(3, 7)):
        kind = rng.choice(["convert", "convert", "edit", "query"]) if step else rng.choice(["convert", "edit"])
        history.append(kind)
        if kind == "edit":
            new = edit(p, rng, obs, f"t{step}")
            history.append(new)
            # Later edits replace earlier ones, and move members of lists
            pending = [(a, b) for a, b in pending if not any(a == c or "/run/" in c and "/run/" in a for c, _ in new)] + new
            edited = edited or conversions > 0
            continue
        if kind == "query":
            query(p, rng, obs)
            continue
        before = state(p)
        out, msgs, tbl = result(p)
        conversions += 1
        obs.count("conversions")
        after = state(p)
        for k in before:
            if before[k] != after[k]:
                raise Violation(f"conversion changes the recipe object: {k}", f"input {k}", before=before[k], after=after[k])
        if rng.random() < 0.5:
            out2, msgs2, _ = result(p)
            obs.count("repeated")
            if out2 != out or msgs2 != msgs:
                raise Violation("a repeated conversion gives another " + ("text" if out2 != out else "list of messages"), "repeated", first=out, second=out2, messages=(msgs, msgs2))
        fresh, fmsgs, _ = result(RecipeParserConvert(before["render"]))
        obs.count("fresh")
        if fresh != out or fmsgs != msgs:
            raise Violation("the conversion differs from that of a fresh object of the same text: " + ("text" if fresh != out else "messages"), "fresh", got=out, want=fresh, messages=(msgs, fmsgs))
        for t, m in earlier:
            obs.count("earlier_results")
            if result_of(t) != m:
                raise Violation("the messages returned by an earlier conversion have changed", "earlier messages")
        earlier.append((tbl, msgs))
        got = R.yaml_oracle(out)
        for path, want in pending:
            at = path
            if path.startswith("/outputs/") or not path.startswith("/requirements"):
                at = path
            if lookup(got, at) != want:
                raise Violation(f"{path} was set to {want!r}, the converted recipe has {lookup(got, at)!r}", "edit lost", out=out)
            obs.count("edits_seen")
        v1(out, got, rng, obs)
    if conversions >= 2 and edited:
        obs.distinct((text, history))
        obs.sample({"text": text[:200], "history": history}, 1)


def result_of(tbl: Any) -> dict[str, list[str]]:
    from conda_recipe_manager.types import MessageCategory

    return {c: list(tbl.get_messages(c)) for c in MessageCategory}


def v1(out: str, got: Any, rng: random.Random, obs: Obs) -> None:
    """The converted text is a V1 recipe."""
    from conda_recipe_manager.parser.enums import SchemaVersion
    from conda_recipe_manager.parser.recipe_parser import RecipeParser

    q = RecipeParser(out)
    obs.count("v1_parsed")
    if q.get_schema_version() != SchemaVersion.V1:
        raise Violation("the converted recipe is not read as a V1 recipe", "v1 version", out=out)
    if q.render() != out:
        a, b = out.split("\n"), q.render().split("\n")
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        raise Violation(f"the converted recipe renders differently, line {k + 1}: {a[k:k + 1]} becomes {b[k:k + 1]}", "v1 render", out=out, again=q.render())
    obs.count("v1_fixed_point")
    if list(q.list_variables()) != list((got.get("context") or {})):
        raise Violation("the variables of the converted recipe are not those of its context", "v1 variables", out=out)
    if q.patch({"op": "add", "path": "/zzz", "value": {"a": [1, "b"]}}):
        obs.count("v1_edited")
        again = R.yaml_oracle(q.render())
        want = dict(got, zzz={"a": [1, "b"]})
        d = R.diff_obj(want, again)
        if d:
            raise Violation(f"an edit of the converted recipe changes {d}", "v1 edit", out=out)
    else:
        raise Violation("the converted recipe can't be edited", "v1 edit", out=out)


CHILD = """
import sys, json
sys.path[:0] = [sys.argv[1], sys.argv[2]]
sys.path.append(sys.argv[3])
from lib.core import setup_env
setup_env()
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.types import MessageCategory
res = []
for text in json.load(sys.stdin):
    out, tbl, dbg = RecipeParserConvert(text).render_to_v1_recipe_format()
    res.append([out, [list(tbl.get_messages(c)) for c in MessageCategory]])
json.dump(res, sys.stdout)
"""


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    def seeds(block: int) -> Callable[[Obs], None]:
        def run(o: Obs) -> None:
            rng = random.Random(f"c11-{block}")
            texts = []
            for _ in range(12):
                doc = R.recipe_v0(rng, com=0.2)
                c10.enrich(doc, rng, Obs())
                texts.append(R.emit(doc))
            o.data(texts=texts)
            results = []
            for seed in ("0", "1", "4242"):
                env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1")
                r = subprocess.run([sys.executable, "-c", CHILD, STUBS, REPO, VERIF], input=json.dumps(texts), capture_output=True, text=True, env=env, timeout=100)
                if r.returncode:
                    raise Violation(f"conversion fails in a fresh process: {r.stderr[-300:]}", "fresh process")
                results.append(json.loads(r.stdout))
            for k in range(len(texts)):
                o.count("hash_seeds")
                if any(r[k] != results[0][k] for r in results[1:]):
                    what = "text" if any(r[k][0] != results[0][k][0] for r in results[1:]) else "messages"
                    raise Violation(f"the {what} of a conversion depends on the hash seed of the process", f"hash seed {what}", text=texts[k], results=[r[k] for r in results])

        return run

    return [(f"hash seeds {b}", seeds(b)) for b in range(4)]
