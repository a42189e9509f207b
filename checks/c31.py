"""C31: the diff of a recipe, applied to the text it was read from, gives the recipe; recipes are equal exactly if they render alike."""

from __future__ import annotations

import copy
import hashlib
import random
import re
from typing import Any

from checks import c03, c04
from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C31"
LEVEL = "exploration"
RULE = (
    "Random recipes (V0 and V1; odd spacing, comments, missing or repeated line ends) are changed by random histories of 0-10 patches, searches, selector, comment and variable edits through every class of parser. After every step the "
    "diff is applied to the original text by a patch applier of our own, which insists that every context and removed line is where the hunk says, and compared with the rendered recipe; an unmodified recipe has no diff. Equality and hash are "
    "compared with the rendered text over all the states of a history. A case is non-trivial if a diff of at least two hunks was applied."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_parser.py", "conda_recipe_manager/parser/recipe_reader.py"]
COUNTS = {"quick": 1500, "thorough": 40000}
REQUIRED = ["diffs_applied", "no_diff", "several_hunks", "reformatted", "modified_back", "equal_states", "different_states", "edit_patch", "edit_search", "edit_selector", "edit_comment", "edit_variable", "edit_dependency", "v1", "reader_and_parser",
            "no_final_newline", "other_schema"]
ASSUMPTIONS = ["Lines are what str.splitlines() separates."]


class Broken(Exception):
    pass


def apply(diff: str, original: list[str]) -> tuple[list[str], int]:
    """A strict reader of unified diffs. (An empty line may follow each header, as difflib ends them with a newline.)"""
    lines = diff.split("\n")
    if len(lines) < 3 or not lines[0].startswith("--- original"):
        raise Broken(f"starts with {lines[:3]}")
    i = 1
    if lines[i] == "":
        i += 1
    if not lines[i].startswith("+++ current"):
        raise Broken(f"has {lines[i]!r} as its second header")
    i += 1
    if i < len(lines) and lines[i] == "":
        i += 1
    out: list[str] = []
    pos = 0
    hunks = 0
    while i < len(lines):
        m = re.fullmatch(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", lines[i])
        if not m:
            raise Broken(f"has {lines[i]!r} in the place of a hunk")
        i += 1
        if i < len(lines) and lines[i] == "":
            i += 1
        hunks += 1
        a, an, b, bn = int(m[1]), int(m[2] or 1) if m[2] != "0" else 0, int(m[3]), int(m[4] or 1) if m[4] != "0" else 0
        start = a - 1 if an else a
        if start < pos:
            raise Broken(f"hunk {m[0]} overlaps")
        out += original[pos:start]
        pos = start
        if (b - 1 if bn else b) != len(out):
            raise Broken(f"hunk {m[0]} starts at line {len(out) + 1} of the result")
        while an or bn:
            if i >= len(lines) or lines[i] == "":
                raise Broken(f"hunk {m[0]} ends early")
            tag, rest = lines[i][0], lines[i][1:]
            i += 1
            if tag in " -":
                if pos >= len(original) or original[pos] != rest:
                    raise Broken(f"{tag}{rest!r} is not line {pos + 1} of the original")
                pos += 1
                an -= 1
            if tag in " +":
                out.append(rest)
                bn -= 1
            if tag not in " +-" or an < 0 or bn < 0:
                raise Broken(f"has the line {tag}{rest!r} in hunk {m[0]}")
    return out + original[pos:], hunks


def edit(p: Any, rng: random.Random, obs: Obs) -> Any:
    from conda_recipe_manager.parser.dependency import Dependency, DependencySection, dependency_data_from_str

    model = p.render_to_object()
    if not isinstance(model, dict) or not model:
        return None
    paths = [q for q in c03.all_paths(model) if not c03.into_nested_list(model, q)]
    path = rng.choice(paths)
    kind = rng.choice(["patch", "patch", "patch", "search", "selector", "comment", "variable", "dependency"])
    obs.count(f"edit_{kind}")
    if kind == "patch":
        op = rng.choice(["add", "replace", "remove", "test", "copy"])
        patch: dict[str, Any] = {"op": op, "path": path}
        if op == "remove" and path.count("/") == 1:
            return None
        if op in ("add", "replace", "test"):
            patch["value"] = c03.rand_value(rng, 1)
        if op == "copy":
            patch["from"], patch["path"] = path, "/about/copied"
        p.patch(copy.deepcopy(patch))
        return patch
    if kind == "search":
        w = rng.choice(R.WORDS)
        p.search_and_patch(w, {"op": "replace", "value": "found " + R.word(rng)})
        return (kind, w)
    if kind == "selector":
        if p.contains_value(path):
            if rng.random() < 0.6:
                p.add_selector(path, rng.choice(R.SELECTORS))
            else:
                p.remove_selector(path)
        return (kind, path)
    if kind == "comment":
        if p.contains_value(path):
            p.add_comment(path, rng.choice(c04.NOTES))
        return (kind, path)
    if kind == "variable":
        v = rng.choice(p.list_variables() or ["new_var"])
        if rng.random() < 0.7:
            p.set_variable(v, rng.choice(["1.2", 5, "some text"]))
        else:
            p.del_variable(v)
        return (kind, v)
    if hasattr(p, "add_dependency") and int(p.get_schema_version()) == 0:
        p.add_dependency(Dependency("x", rng.choice(["/requirements/run/0", "/requirements/host/3"]), DependencySection.RUN, dependency_data_from_str(R.dep_spec(rng))))
    return (kind,)


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.recipe_parser import RecipeParser
    from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
    from conda_recipe_manager.parser.recipe_reader import RecipeReader

    v1 = rng.random() < 0.2
    doc = R.recipe_v0(rng, com=0.2) if not v1 and rng.random() < 0.6 else R.rand_doc(rng, depth=rng.randint(2, 4), schema=int(v1))
    if rng.random() < 0.4:
        R.vary(doc, rng)
    if rng.random() < 0.3:
        doc.messy = random.Random(rng.random())
    text = R.emit(doc)
    if rng.random() < 0.3:
        text = text.rstrip("\n") + rng.choice(["", "", "\n\n\n"])
    if not text.endswith("\n"):
        obs.count("no_final_newline")
    obs.data(text=text)
    cls = rng.choice([RecipeParser, RecipeParser, RecipeParserDeps])
    p = cls(text)
    if v1:
        obs.count("v1")
    history: list[Any] = []
    states: list[tuple[str, Any]] = [(p.render(), RecipeReader(text))]
    best = 0
    for _ in range(rng.choice([0, 1, 2, 4, 7, 10])):
        try:
            h = edit(p, rng, obs)
        except (KeyError, ValueError):
            # (refused edits are judged elsewhere)
            h = "refused"
        if h is None:
            continue
        history.append(h)
        obs.data(text=text, history=history)
        now = p.render()
        if p.is_modified() is False:
            if p.diff() != "":
                raise Violation(f"the recipe is not modified, but has the diff {p.diff()!r}", "unmodified")
            if now != states[0][0]:
                raise Violation(f"after {history[-1]} the recipe differs from the one that was read, but is not modified", "modified flag")
            obs.count("no_diff")
        else:
            d = p.diff()
            if d == "":
                if text.splitlines() != now.splitlines():
                    raise Violation("a modified recipe has no diff", "empty")
                obs.count("modified_back")
            else:
                try:
                    got, hunks = apply(d, text.splitlines())
                except Broken as e:
                    raise Violation(f"after {history[-1]} the diff {e}", "not a diff", diff=d) from e
                if got != now.splitlines():
                    raise Violation(f"after {history[-1]} the diff gives another recipe", "diff", diff=d, rendered=now)
                obs.count("diffs_applied")
                best = max(best, hunks)
                if hunks > 1:
                    obs.count("several_hunks")
                if states[0][0] != text:
                    obs.count("reformatted")
            if now == states[0][0]:
                obs.count("modified_back")
        if p.render() != now:
            raise Violation("looking at the diff changed the recipe", "side effect")
        # A frozen copy of this state
        states.append((now, copy.deepcopy(p)))
    # Equality
    for _ in range(4):
        (ta, a), (tb, b) = rng.choice(states), rng.choice(states)
        same_kind = a.get_schema_version() == b.get_schema_version()
        want = ta == tb and same_kind
        if (a == b) is not want or (b == a) is not want or (a != b) is want:
            raise Violation(f"equality is {a == b}/{b == a} for recipes that render {'alike' if want else 'differently'}", "equality")
        for t, x in ((ta, a), (tb, b)):
            if x.calc_sha256() != hashlib.sha256(t.encode()).hexdigest():
                raise Violation("calc_sha256() is not the hash of the rendered recipe", "hash")
        obs.count("equal_states" if want else "different_states")
        if type(a) is not type(b):
            obs.count("reader_and_parser")
    if rng.random() < 0.1:
        o = RecipeReader("schema_version: 1\npackage:\n  name: x\n")
        obs.count("other_schema")
        if (o == p) is not (o.render() == p.render()):
            raise Violation("recipes of different schemas are equal", "schema")
    for alien in ("text", None, 5):
        try:
            if p == alien:
                raise Violation(f"a recipe is equal to {alien!r}", "alien")
        except TypeError:
            pass
    if best > 1:
        obs.distinct(text + repr(history))
        obs.sample({"history": [str(h) for h in history[:3]], "hunks": best}, 2)
