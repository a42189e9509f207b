"""C02: rendering keeps everything a recipe says, and is a fixed point."""

from __future__ import annotations

import ast
import hashlib
import os
import random
import re
from typing import Any, Callable

from lib import recipes as R
from lib.core import REPO, Obs, Violation

PROP = "C02"
LEVEL = "exploration"
RULE = (
    "Generated recipes (as in C01, every comment made unique) are parsed and rendered. The YAML loader and composer, not the "
    "parser, read the rendered text: values, variables, the line each trailing comment is on, and the order and position of "
    "comment-only lines are compared with the model. A case is non-trivial if it has at least 5 values and a comment."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_reader.py", "conda_recipe_manager/parser/_utils.py", "conda_recipe_manager/parser/_node.py"]
COUNTS = {"quick": 3000, "thorough": 60000}
REQUIRED = [
    "comments_found_on_their_line", "comment_lines_in_place", "variables_kept", "fixed_points", "byte_identical", "hashes", "unequal_recipes",
    "real_recipes",
]
ASSUMPTIONS = [
    "Recipes stay inside the parser's dialect (see C01).",
    "Unquoted numbers may be rewritten in their canonical form (finding C02-number-text); Jinja `set` values are literals without double quotes (finding C02-set-expression).",
]


def split_vars(text: str) -> dict[str, Any]:
    out: dict[str, Any] = {}
    for m in re.finditer(r"(?m)^\{% set (\w+) = (.*) %\}$", text):
        out[m.group(1)] = ast.literal_eval(m.group(2))
    return out


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.recipe_reader import RecipeReader

    canonical = i % 3 == 0
    if i % 2:
        doc = R.recipe_v0(rng, com=rng.choice([0.1, 0.3]))
    else:
        doc = R.rand_doc(rng, depth=rng.randint(1, 4), com=rng.choice([0.1, 0.3]), schema=rng.choice([0, 0, 1]))
    R.tag_comments(doc, rng)
    if not canonical:
        R.vary(doc, rng)
    text = R.emit(doc)
    obs.data(text=text)
    r = RecipeReader(text)
    t1 = r.render()
    obs.data(rendered=t1)
    check_rendered(doc, t1, obs)
    r2 = RecipeReader(t1)
    d = R.diff_obj(R.strip_nl(R.to_obj(doc.root)), R.strip_nl(r2.render_to_object()))
    if d:
        raise Violation(f"the rendered recipe parses differently: {d}", "reparse")
    t2 = r2.render()
    if t2 != t1:
        raise Violation(f"rendering is not stable: {first_diff(t1, t2)}", "fixed point", second=t2)
    obs.count("fixed_points")
    if r.render() != t1:
        raise Violation("rendering twice gives different text", "render twice")
    # A recipe that was written canonically keeps all of its lines.
    if canonical:
        ok, why = same_lines(text, t1)
        if not ok:
            raise Violation(f"canonical text was rewritten: {why}", "canonical")
        obs.count("byte_identical" if text == t1 else "identical_up_to_quotes")
    # Equality and hash
    if not r == r2 or r.calc_sha256() != r2.calc_sha256():
        raise Violation("a recipe and its rendered form are not equal", "equality")
    if r.calc_sha256() != hashlib.sha256(t1.encode()).hexdigest():
        raise Violation("calc_sha256() is not the hash of the rendered recipe", "hash")
    obs.count("hashes")
    other_text = different(t1, rng)
    if other_text is not None:
        r3 = RecipeReader(other_text)
        if r == r3 or r3.calc_sha256() == r.calc_sha256():
            raise Violation("two recipes that differ compare as equal", "inequality", other=other_text)
        obs.count("unequal_recipes")
    n_com = sum(1 for _, o in R.commented(doc.root) if o.comment) + len(list(R.comment_lines(doc.root)))
    obs.seen("comments_per_recipe", str(n_com))
    if len(R.leaf_paths(doc)) >= 5 and n_com:
        obs.distinct(text)
        obs.sample(text[:500], 1)


def check_rendered(doc: R.Doc, t1: str, obs: Obs) -> None:
    """Reads the rendered text without the parser."""
    try:
        got = R.yaml_oracle(t1)
    except Exception as e:
        raise Violation(f"the rendered recipe is not YAML: {e}", "yaml") from e
    d = R.diff_obj(R.strip_nl(R.to_obj(doc.root)), R.strip_nl(got))
    if d:
        raise Violation(f"the rendered recipe reads differently: {d}", "values")
    want_keys = [e.key for e in doc.root.entries if isinstance(e, R.Entry)]
    if list(got) != want_keys:
        raise Violation(f"sections are in the order {list(got)}, expected {want_keys}", "order")
    if doc.schema == 0:
        v = split_vars(t1)
        if not R.same(v, doc.variables) or list(v) != list(doc.variables):
            raise Violation(f"variables are {v}, expected {doc.variables}", "variables")
        obs.count("variables_kept", len(v))
    lines = t1.split("\n")
    at = R.line_paths(t1)
    # An object written on one line may have been spread over several
    flow = [p for p, v, _ in R.walk(doc.root) if isinstance(v, R.Sc) and isinstance(v.value, dict)]
    where: dict[str, int] = {}
    for n, p in sorted(at.items()):
        at[n] = next((q for q in flow if p.startswith(q + "/")), p)
        where.setdefault(at[n], n)
    for p, o in R.commented(doc.root):
        n = where.get(p)
        if n is None:
            if not o.comment:
                continue
            raise Violation(f"no line for {p}", "line")
        if o.comment:
            if not lines[n].endswith("  " + o.comment):
                raise Violation(f"the comment {o.comment!r} of {p} is not on its line: {lines[n]!r}", "comment")
            obs.count("comments_found_on_their_line")
        elif re.search(r"\s# (\[.*\] )?(c\d+c|\[)", lines[n]) and not isinstance(o, R.Multi) and "#" not in str(getattr(o, "text", "")):
            raise Violation(f"{p} gained a comment: {lines[n]!r}", "gained comment")
    # Comment-only lines keep their place: the order of all keys, members and comment lines is unchanged.
    tags = {c.text for c in R.comment_lines(doc.root)}
    want_order = order(doc.root)
    got_order: list[str] = []
    for n, ln in enumerate(lines):
        if ln.strip() in tags:
            got_order.append(ln.strip())
        elif n in at and at[n] not in got_order[-1:]:
            got_order.append(at[n])
    if got_order != want_order:
        k = next((k for k, (a, b) in enumerate(zip(want_order, got_order)) if a != b), min(len(want_order), len(got_order)))
        raise Violation(f"line order changed: expected {want_order[k:k+3]}, got {got_order[k:k+3]}", "comment lines")
    obs.count("comment_lines_in_place", len(tags))


def order(v: Any, path: str = "") -> list[str]:
    out: list[str] = []
    if isinstance(v, R.Map):
        for e in v.entries:
            if isinstance(e, R.Cm):
                out.append(e.text)
            else:
                out.append(f"{path}/{e.key}")
                out += order(e.value, f"{path}/{e.key}")
    elif isinstance(v, R.Seq):
        i = 0
        for it in v.items:
            if isinstance(it, R.Cm):
                out.append(it.text)
                continue
            p = f"{path}/{i}"
            i += 1
            if isinstance(it, R.Map):
                out += order(it, p)
            else:
                out.append(p)
    return out


def first_diff(a: str, b: str) -> str:
    for x, y in zip(a.split("\n"), b.split("\n")):
        if x != y:
            return f"{x!r} became {y!r}"
    return "lengths differ"


def same_lines(a: str, b: str) -> tuple[bool, str]:
    """Lines are the same up to the quotes of strings and the letter case of booleans."""
    la, lb = a.split("\n"), b.split("\n")
    if len(la) != len(lb):
        return False, f"{len(la)} lines became {len(lb)}"
    for x, y in zip(la, lb):
        if x == y:
            continue
        if re.sub(r"[\"'\\]", "", x).lower() != re.sub(r"[\"'\\]", "", y).lower() and "\\u" not in y:
            return False, f"{x!r} became {y!r}"
    return True, ""


def different(t: str, rng: random.Random) -> Any:
    """Another recipe: one character of one plain value changed."""
    spots = [m for m in re.finditer(r"(?m)^[ ]*(?:- |[\w-]+: )([a-z]{4,})", t)]
    if not spots:
        return None
    m = rng.choice(spots)
    if ": |" in m.group(0) or m.group(1) in ("true", "false", "null"):
        return None
    k = m.start(1) + 1
    return t[:k] + ("q" if t[k] != "q" else "r") + t[k + 1 :]


def fixed(_obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    from checks import c01

    return [(n, lambda o, p=n[len("real:") :]: real(os.path.join(REPO, "tests", "test_aux_files", p), o)) for n, _ in c01.fixed(_obs)]


def real(path: str, obs: Obs) -> None:
    from conda_recipe_manager.parser.recipe_reader import RecipeReader

    with open(path, encoding="utf-8") as f:
        text = f.read()
    obs.data(path=path)
    if re.search(r"\{%-?\s*(?!\s|set\b)|\{%.*%\}[ \t]*#|\}\}'?:|\{% set \w+ = [^\"'\d]", text) or "non_marked" in path:
        return
    try:
        split_vars(text)
        expected = R.yaml_oracle(text)
    except Exception:
        return
    if not isinstance(expected, dict) or R.has_duplicate_keys(text):
        return
    r = RecipeReader(text)
    t1 = r.render()
    d = R.diff_obj(R.strip_nl(expected), R.strip_nl(R.yaml_oracle(t1)))
    if d:
        raise Violation(f"the rendered recipe reads differently: {d}", "real values", rendered=t1)
    if RecipeReader(t1).render() != t1:
        raise Violation("rendering is not stable", "real fixed point", rendered=t1)
    count = lambda t: sorted(re.sub(r"\s+", " ", m) for m in re.findall(r"(?m)(?:^|\s)(#.*)$", t))  # noqa: E731
    if count(text) != count(t1):
        raise Violation("comments were lost or added", "real comments", rendered=t1)
    obs.count("real_recipes")
    obs.distinct(text)


def findings() -> list[tuple[str, Callable[[], Any]]]:
    def render(t: str) -> str:
        from conda_recipe_manager.parser.recipe_reader import RecipeReader

        return RecipeReader(t).render()

    def number_text() -> Any:
        v = render("package:\n  version: 1.10\n")
        return "the unquoted version number 1.10 is rendered as 1.1" if "1.10" not in v else None

    def set_expression() -> Any:
        v = render("{% set version = environ.get('V') %}\n\npackage:\n  name: x\n").split("\n")[0]
        return f"a variable set to an expression is rendered as a string: {v}" if "= environ" not in v else None

    def statements() -> Any:
        v = render("{% if true %}\npackage:\n  name: x\n{% endif %}\n")
        return "Jinja statements other than `set` are not rendered" if "{% if" not in v else None

    def conditional_set() -> Any:
        v = render('{% set x = "1" %}  # [osx]\n\npackage:\n  name: foo\n').split("\n")[0]
        return f"a variable with a selector is rendered as {v}" if not v.startswith("{%") else None

    return [("C02-conditional-set", conditional_set), ("C02-number-text", number_text), ("C02-set-expression", set_expression), ("C02-jinja-statements", statements)]
