"""C01: what the parser reports about a recipe is what a YAML reader sees in it."""

from __future__ import annotations

import os
import random
import re
from typing import Any, Callable

from lib import recipes as R
from lib.core import REPO, HarnessError, Obs, Violation

PROP = "C01"
LEVEL = "exploration"
RULE = (
    "Recipes are generated model-first (values, selectors, comments, block scalars, Jinja, one-line collections, keys "
    "without values; V0 and V1) and written in varied but valid ways (indentation, list indentation, blank lines, comment "
    "columns). The pure-Python YAML loader cross-checks each generated text; the real recipes of /repo/tests are compared "
    "with it directly. A case is non-trivial if the recipe has at least 5 addressable values; it is identified by its text."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_reader.py", "conda_recipe_manager/parser/_traverse.py", "conda_recipe_manager/parser/_node.py"]
COUNTS = {"quick": 5000, "thorough": 100000}
REQUIRED = [
    "values_read", "missing_paths", "objects_compared", "find_value_hits", "search_hits", "search_comment_hits", "null_values",
    "block_scalars", "one_line_collections", "real_recipes", "defaults_returned", "key_names_searched",
]
ASSUMPTIONS = [
    "Recipes stay inside the parser's dialect: the Jinja statements are `set` lines, substitutions use the supported expression characters.",
    "Strings compare modulo trailing newlines (block scalar chomping is not kept, by design).",
    "get_value() of a key without a value is finding C01-empty-key and is excluded from the generated comparisons.",
]


def check_text(text: str, expected: Any, obs: Obs) -> Any:
    from conda_recipe_manager.parser.recipe_reader import RecipeReader

    r = RecipeReader(text)
    got = r.render_to_object()
    d = R.diff_obj(R.strip_nl(expected), R.strip_nl(got))
    if d:
        raise Violation(f"render_to_object(): {d}", "object")
    obs.count("objects_compared")
    return r


def case(i: int, rng: random.Random, obs: Obs) -> None:
    if i % 2:
        doc = R.recipe_v0(rng)
    else:
        doc = R.rand_doc(rng, depth=rng.randint(1, 4), schema=rng.choice([0, 0, 1]))
    if rng.random() < 0.7:
        R.vary(doc, rng)
    text = R.emit(doc, blank_lines=rng.random() < 0.8)
    if rng.random() < 0.1:
        text = "---\n" * 0 + text.rstrip("\n") + ("" if rng.random() < 0.5 else "\n\n\n")
    obs.data(text=text)
    expected = R.to_obj(doc.root)
    if i % 4 == 0:
        try:
            oracle = R.yaml_oracle(text)
        except Exception as e:
            raise HarnessError(f"generated text is not YAML: {e}\n{text}") from e
        d = R.diff_obj(R.strip_nl(expected), R.strip_nl(oracle))
        if d:
            raise HarnessError(f"generator and YAML loader disagree: {d}\n{text}")
    r = check_text(text, expected, obs)

    leaves = R.leaf_paths(doc)
    flow = one_line(doc)

    skip: set[str] = set()

    def collapse(paths: list[str]) -> list[str]:
        """The keys of an object on one line may or may not have paths of their own."""
        out: list[str] = []
        for p in paths:
            p = next((q for q in flow if p.startswith(q + "/")), p)
            if (not out or out[-1] != p) and p not in skip:
                out.append(p)
        return out

    got_leaves = collapse(r.list_value_paths())
    if got_leaves != leaves:
        raise Violation(f"list_value_paths() is {r.list_value_paths()}, expected {leaves}", "paths")
    nodes = list(R.walk(doc.root))
    by_value: dict[tuple[str, Any], list[str]] = {}
    for p, v, _ in nodes:
        if not r.contains_value(p):
            raise Violation(f"contains_value({p!r}) is False", "contains")
        want = R.to_obj(v)
        if v is None or (isinstance(v, R.Sc) and v.value is None):
            by_value.setdefault(("NoneType", None), []).append(p)
            obs.count("null_values")
        if v is None or want is None:
            continue
        d = R.diff_obj(R.strip_nl(want), R.strip_nl(r.get_value(p)))
        if d:
            raise Violation(f"get_value({p!r}): {d}", "get_value")
        obs.count("values_read")
        if isinstance(v, R.Sc):
            if isinstance(v.value, (list, dict)):
                obs.count("one_line_collections")
            elif v.value is not None:
                by_value.setdefault((type(v.value).__name__, v.value), []).append(p)
        elif isinstance(v, R.Multi):
            obs.count("block_scalars")
    # Paths that are not in the recipe
    known = {p for p, _, _ in nodes}
    for p in rng.sample([p for p, _, _ in nodes], min(6, len(nodes))):
        for q in (p + "/0", p + "/zz", p.rsplit("/", 1)[0] + "/zz", p.rsplit("/", 1)[0] + "/999", p + "/" + p.rsplit("/", 1)[-1], "/zz" + p):
            if q in known or not q.startswith("/") or inside_one_line(doc, q):
                continue
            obs.count("missing_paths")
            if r.contains_value(q):
                raise Violation(f"contains_value({q!r}) is True for a path that is not in the recipe", "absent contains")
            marker = rng.choice([None, "dflt", 0, [], {"a": 1}])
            if not R.same(r.get_value(q, default=marker), marker):
                raise Violation(f"get_value({q!r}, default={marker!r}) returned {r.get_value(q, default=marker)!r}", "default")
            obs.count("defaults_returned")
            try:
                v = r.get_value(q)
            except KeyError:
                continue
            raise Violation(f"get_value({q!r}) returned {v!r} for a path that is not in the recipe", "absent get")
    # Searching by value
    for (_, v), paths in list(by_value.items())[:20]:
        got = [p for p in r.find_value(v) if not any(p.startswith(q + "/") for q in flow)]
        if got != paths:
            raise Violation(f"find_value({v!r}) is {got}, expected {paths}", "find_value")
        obs.count("find_value_hits", len(paths))
    # The names of keys are not values
    for name in {p.rsplit("/", 1)[1] for p, v, _ in nodes} - {v for _, v in by_value if isinstance(v, str)}:
        got = [p for p in r.find_value(name) if not any(p.startswith(q + "/") for q in flow)]
        if got:
            raise Violation(f"find_value({name!r}) is {got}, but {name!r} is the name of a key", "find_value key")
        obs.count("key_names_searched")
    if "no such value" not in {v for _, v in by_value} and r.find_value("no such value") != []:
        raise Violation("find_value() of an absent value", "find_value absent")
    # Searching by regular expression (the text of `null` and of one-line collections is not specified)
    skip |= {p for p, v, _ in nodes if isinstance(v, R.Sc) and (v.value is None or isinstance(v.value, (list, dict)))}
    for _ in range(4):
        w = rng.choice(R.WORDS + R.PKGS[:8] + ["example", "org", "make", "check"])
        if not w.isalnum():
            continue
        re_w = rng.choice([w, re.compile(w), f"{w[:-1]}[{w[-1]}]"])
        want_paths = [p for p, v, c in nodes if matches(v, "", w) and p not in skip]
        if collapse(r.search(re_w)) != want_paths:
            raise Violation(f"search({w!r}) is {r.search(re_w)}, expected {want_paths}", "search")
        obs.count("search_hits", len(want_paths))
    for _ in range(3):
        w = rng.choice(["unix", "linux", "osx", "win", "TODO", "upstream", "sync", "py", "required"])
        want_paths = [p for p, v, c in nodes if matches(v, c, w) and p not in skip]
        if collapse(r.search(w, include_comment=True)) != want_paths:
            raise Violation(f"search({w!r}, include_comment=True) is {r.search(w, True)}, expected {want_paths}", "search comment")
        obs.count("search_comment_hits", len(want_paths))
    # Reading does not modify
    if r.is_modified():
        raise Violation("reading marks the recipe as modified", "modified")
    obs.seen("value_kinds", tuple(sorted({type(R.to_obj(v)).__name__ for _, v, _ in nodes})))
    obs.seen("schema", str(r.get_schema_version()))
    if (r.get_schema_version() == 1) != (doc.schema == 1):
        raise Violation(f"get_schema_version() is {r.get_schema_version()}", "schema")
    if len(leaves) >= 5:
        obs.distinct(text)
        obs.sample(text[:500], 1)


def matches(v: Any, com: str, w: str) -> bool:
    if isinstance(v, R.Multi):
        return any(w in ln for ln in v.lines) or w in com
    if isinstance(v, R.Sc):
        if v.value is None:
            return False  # keys without a value are not searched
        return w in str(v.value) or w in com
    return False


def one_line(doc: R.Doc) -> list[str]:
    return [p for p, v, _ in R.walk(doc.root) if isinstance(v, R.Sc) and isinstance(v.value, (list, dict))]


def inside_one_line(doc: R.Doc, q: str) -> bool:
    return any(q.startswith(p + "/") for p in one_line(doc))


# ---------------------------------------------------------------------------------------------------------------------
# Real recipes


def fixed(_obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    out = []
    base = os.path.join(REPO, "tests", "test_aux_files")
    for root, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".yaml") and "cbc" not in root and "cbc" not in f:
                path = os.path.join(root, f)
                out.append((f"real:{os.path.relpath(path, base)}", lambda o, p=path: real(p, o)))
    return out


def real(path: str, obs: Obs) -> None:
    with open(path, encoding="utf-8") as f:
        text = f.read()
    obs.data(path=path)
    if os.path.basename(path) == "non_marked_multiline_summary.yaml":
        return  # finding C01-plain-multiline
    if re.search(r"\{%-?\s*(?!\s|set\b)|\{%.*%\}[ \t]*#|\}\}'?:", text):
        obs.count("real_recipes_outside_dialect")
        return
    try:
        expected = R.yaml_oracle(text)
    except Exception:
        obs.count("real_recipes_not_yaml")
        return
    if R.has_duplicate_keys(text):
        obs.count("real_recipes_with_duplicate_keys")
        return
    if not isinstance(expected, dict):
        return
    r = check_text(text, expected, obs)
    obs.count("real_recipes")
    for p in r.list_value_paths():
        try:
            want = R.get_path(expected, p)
        except KeyError:
            raise Violation(f"list_value_paths() has {p!r}, which is not in the recipe", "real paths") from None
        if want is None:
            continue
        d = R.diff_obj(R.strip_nl(want), R.strip_nl(r.get_value(p)))
        if d:
            raise Violation(f"get_value({p!r}): {d}", "real get_value")
        obs.count("values_read")
    obs.distinct(text)


def findings() -> list[tuple[str, Callable[[], Any]]]:
    def empty_key() -> Any:
        from conda_recipe_manager.parser.recipe_reader import RecipeReader

        r = RecipeReader("about:\n  home:\n  license: MIT\n")
        v = r.get_value("/about/home")
        return f"get_value() of the key without a value `home:` returns {v!r} instead of None" if v is not None else None

    def plain_multiline() -> Any:
        from conda_recipe_manager.parser.recipe_reader import RecipeReader

        v = RecipeReader("about:\n  summary: Foo bar\n    bar baz\n  license: MIT\n").get_value("/about/summary")
        return f"a plain scalar that spans two lines, `Foo bar\\n bar baz`, reads as {v!r}" if v != "Foo bar bar baz" else None

    def nested_lists() -> Any:
        from conda_recipe_manager.parser.recipe_reader import RecipeReader

        v = RecipeReader("extra:\n  b:\n    - - x\n      - y\n    - z\n").get_value("/extra/b")
        return f"a list of lists, [[x, y], z], reads as {v!r}" if v != [["x", "y"], "z"] else None

    def indicator() -> Any:
        from conda_recipe_manager.parser.recipe_reader import RecipeReader

        v = RecipeReader("about:\n  summary: |2\n    foo\n   bar\n  license: MIT\n").get_value("/about/summary")
        return f"a block scalar with an indentation indicator, `|2`, reads as {v!r}" if not isinstance(v, str) or v.rstrip("\n") != "  foo\n bar" else None

    return [("C01-block-indicator", indicator), ("C01-empty-key", empty_key), ("C01-plain-multiline", plain_multiline), ("C01-nested-lists", nested_lists)]
