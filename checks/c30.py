"""C30: search-and-patch applies the patch to every value that matches, and to nothing else."""

from __future__ import annotations

import copy
import random
import re
from typing import Any

from checks import c01, c03
from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C30"
LEVEL = "exploration"
RULE = (
    "Random recipes (V0 and V1) are given 1-5 search-and-patch requests: words and expressions of varying selectivity, values "
    "alone or with their comments, each patch operation (`move` when at most one value matches). The matches are computed from the generator's model before the first "
    "patch, the model is edited at all of them at once, and the object, the rendered text (read by an independent YAML loader), the lines of all other values, the result, "
    "the modified flag and the caller's patch are compared. A case is non-trivial if some request matched at least two values."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_parser.py", "conda_recipe_manager/parser/recipe_reader.py"]
COUNTS = {"quick": 2200, "thorough": 60000}
REQUIRED = ["matched_none", "matched_one", "matched_many", "same_list", "long_list", "by_comment", "values_only", "case_insensitive", "op_add", "op_remove", "op_replace", "op_copy", "op_move", "op_test", "test_true", "test_false", "several_requests",
            "lines_kept", "failed_copies", "v1"]
ASSUMPTIONS = [
    "Values written as collections on one line and keys without a value are not matched by the generated expressions: what text they have is not specified.",
    "An object or list that loses its last member may read back as null.",
]


def nested(model: Any, path: str) -> bool:
    return c03.into_nested_list(model, path)


def leaves(obj: Any, path: str = "") -> list[tuple[str, Any]]:
    if isinstance(obj, dict) and obj:
        return [x for k, v in obj.items() for x in leaves(v, f"{path}/{k}")]
    if isinstance(obj, list) and obj:
        return [x for i, v in enumerate(obj) for x in leaves(v, f"{path}/{i}")]
    return [(path, obj)]


def values(doc: R.Doc) -> list[tuple[str, Any, str]]:
    return [(p, v, c) for p, v, c in R.walk(doc.root) if not isinstance(v, (R.Map, R.Seq))]


def texts(v: Any) -> list[str]:
    """What a value may be searched by."""
    if isinstance(v, R.Multi):
        return list(v.lines)
    if v is None:
        return []
    x = v.value
    return ["true" if x is True else "false" if x is False else str(x)]


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.recipe_parser import RecipeParser

    v1 = rng.random() < 0.2
    doc = R.recipe_v0(rng) if not v1 and rng.random() < 0.45 else R.rand_doc(rng, depth=rng.randint(2, 4), schema=int(v1))
    repeat(doc.root, rng)
    if rng.random() < 0.3:
        R.vary(doc, rng)
    text = R.emit(doc)
    model = R.to_obj(doc.root)
    history: list[Any] = []
    obs.data(text=text, history=history)
    p = RecipeParser(text)
    if v1:
        obs.count("v1")
    first = True
    many = False
    modified = False
    # Collections on one line have no lines of their own, which can not be told from the object
    flow = tuple(q + "/" for q in c01.one_line(doc))
    for _ in range(1 if flow else rng.choice([1, 2, 3, 5])):
        # The comments are known for the recipe as it was written only
        by_comment = first and rng.random() < 0.4
        if first:
            pool = values(doc)
        else:
            pool = [(q, R.Sc(v, ""), "") for q, v in leaves(model)]
        pool = [x for x in pool if x[0]]
        if not pool:
            return
        source = rng.choice(pool)
        words = re.findall(r"[A-Za-z0-9]{2,}", " ".join([source[2]] if by_comment and source[2] and rng.random() < 0.7 else texts(source[1])))
        w = rng.choice(words) if words and rng.random() < 0.93 else "nothing-like-this"
        if w.lower() in "null none true false":
            continue
        nocase = rng.random() < 0.15
        regex: Any = rng.choice([w, re.compile(w), f"{w[:-1]}[{w[-1]}]", f"(?:{w})"])
        if nocase:
            regex = re.compile(w.swapcase(), re.IGNORECASE)

        def hit(s: str) -> bool:
            return w.lower() in s.lower() if nocase else w in s

        matches = []
        unclear = False
        for q, v, c in pool:
            com = c if by_comment else ""
            m = hit(com) or any(hit(t) for t in texts(v))
            val = R.to_obj(v)
            if val is None or isinstance(val, (dict, list)) or (isinstance(val, float) and "e" in str(val)) or nested(model, q):
                unclear = unclear or m or hit(str(val)) or hit("null")
            elif isinstance(val, str) and "\n" in val and not first and not m and hit(val.replace("\n", " ")):
                unclear = True
            elif m:
                matches.append(q)
        if unclear:
            continue
        op = rng.choice(["add", "remove", "remove", "replace", "replace", "copy", "test", "move"])
        patch: dict[str, Any] = {"op": op}
        expected = copy.deepcopy(model)
        want = True
        lines_fixed = False
        if rng.random() < 0.3:
            patch["path"] = rng.choice(["/nowhere", "", "/about/home"])
        if op in ("copy", "move"):
            # From a place that no other part of the request touches
            busy = {q.rsplit("/", 1)[0] for q in matches}
            free = [q for q, v in leaves(model) if q and v is not None and not isinstance(v, (list, dict)) and q not in matches and not any(q.startswith(b + "/") for b in busy) and not nested(model, q) and not any(b.startswith(q.rsplit("/", 1)[0] + "/") for b in busy)
                    and len(c03.find(model, c03.parts_of(q)[:-1])) > 1 and q.count("/") > 1 and not q.startswith(flow)]
            if op == "move" and len(matches) > 1:
                continue
            if not free or rng.random() < 0.1:
                patch["from"] = "/no/such/value"
                want = not matches
                if matches:
                    obs.count("failed_copies")
            else:
                patch["from"] = rng.choice(free)
                v = copy.deepcopy(c03.find(model, c03.parts_of(patch["from"])))
                if isinstance(v, str) and "\n" in v:
                    continue
                if op == "move" and matches:
                    c03.m_remove(expected, patch["from"])
                for q in reversed(matches):
                    c03.m_add(expected, q, v)
        elif op in ("add", "replace"):
            patch["value"] = c03.rand_value(rng, rng.choice([0, 0, 1]))
            if isinstance(patch["value"], str) and "\n" in patch["value"] or patch["value"] in ("", [], {}):
                patch["value"] = "plain"
            for q in reversed(matches):
                (c03.m_add if op == "add" else c03.m_replace)(expected, q, copy.deepcopy(patch["value"]))
            # Scalars take one line, as do the scalars they replace
            scalar = not isinstance(patch["value"], (dict, list)) and patch["value"] is not None
            lines_fixed = first and op == "replace" and scalar and not any("\n" in str(c03.find(model, c03.parts_of(q))) or isinstance(v, R.Multi) for q, v, _ in pool if q in matches)
        elif op == "remove":
            if all(f"/{k}" in matches for k in model):
                continue  # a recipe always has a section
            for q in reversed(matches):
                c03.m_remove(expected, q)
        else:
            patch["value"] = copy.deepcopy(c03.find(model, c03.parts_of(rng.choice(matches)))) if matches and rng.random() < 0.8 else "x"
            if isinstance(patch["value"], str) and "\n" in patch["value"]:
                continue
            want = all(c03.jeq(c03.find(model, c03.parts_of(q)), patch["value"]) for q in matches)
            obs.count("test_true" if want and matches else "test_false")
        history.append({"regex": getattr(regex, "pattern", regex), "nocase": nocase, "by_comment": by_comment, "matches": matches, "patch": copy.deepcopy(patch)})
        before = p.render()
        sent = copy.deepcopy(patch)
        found = p.search(regex, by_comment)
        if [q for q in found] != matches:
            raise Violation(f"search({regex!r}, {by_comment}) is {found}, expected {matches}", "search")
        args: tuple[Any, ...] = (regex, patch, by_comment) if by_comment or rng.random() < 0.5 else (regex, patch)
        got = p.search_and_patch(*args)
        after = p.render()
        if patch != sent:
            raise Violation(f"the caller's patch {sent} became {patch}", "argument")
        if got is not want:
            raise Violation(f"{history[-1]} returned {got}, expected {want}", f"result {op}")
        if op != "test" and matches and want:
            modified = True
        if p.is_modified() is not modified:
            raise Violation(f"{history[-1]}: is_modified() is {p.is_modified()}, expected {modified}", "modified")
        d = R.diff_obj(c03.norm(expected), c03.norm(p.render_to_object()))
        if d:
            raise Violation(f"{history[-1]}: {d}", f"object {op}", rendered=after)
        d = R.diff_obj(c03.norm(expected), c03.norm(R.yaml_oracle(after)))
        if d:
            raise Violation(f"{history[-1]}: the rendered text differs: {d}", f"text {op}", rendered=after)
        if (op == "test" or not matches or not want) and after != before:
            raise Violation(f"{history[-1]} changed the recipe", f"changed {op}", rendered=after)
        if lines_fixed and not any(nested(model, q) for q in matches):
            a, b = before.split("\n"), after.split("\n")
            if len(a) != len(b):
                raise Violation(f"{history[-1]}: {len(a)} lines became {len(b)}", "lines", rendered=after)
            owner = R.line_paths(before)
            other = [(x, y) for n, (x, y) in enumerate(zip(a, b)) if x != y and owner.get(n) not in matches]
            if other:
                raise Violation(f"{history[-1]}: the line {other[0][0]!r} became {other[0][1]!r}", "other line", rendered=after)
            obs.count("lines_kept")
        obs.count(f"op_{op}")
        obs.count("matched_none" if not matches else "matched_one" if len(matches) == 1 else "matched_many")
        obs.count("by_comment" if by_comment else "values_only")
        if nocase:
            obs.count("case_insensitive")
        parents = [q.rsplit("/", 1)[0] for q in matches if q.rsplit("/", 1)[1].isdecimal()]
        if len(parents) != len(set(parents)):
            obs.count("same_list")
            if any(q.rsplit("/", 1)[-1].isdecimal() and len(q.rsplit("/", 1)[-1]) > 1 for q in matches):
                obs.count("long_list")
        many = many or len(matches) > 1
        if len(history) > 1:
            obs.count("several_requests")
        if after != before:
            first = False
        # Empty collections read back as null
        model = p.render_to_object()
        if not isinstance(model, dict):
            return
    if many:
        obs.distinct(text + repr(history))
        obs.sample({"history": history[:3]}, 2)


def repeat(v: Any, rng: random.Random) -> None:
    """Lists that have the same word in several members."""
    if isinstance(v, R.Map):
        for e in v.entries:
            if isinstance(e, R.Entry):
                repeat(e.value, rng)
    elif isinstance(v, R.Seq):
        scs = [it for it in v.items if isinstance(it, R.Sc) and isinstance(it.value, str) and it.value == it.text]
        if scs and rng.random() < 0.4:
            src = rng.choice(scs)
            for _ in range(rng.randint(1, 3)):
                if "\n" not in src.value and "{{" not in src.value:
                    v.items.insert(rng.randint(0, len(v.items)), R.Sc(src.value, src.text, rng.choice(["", "# again", "# [osx]"])))
            # Positions of more than one digit
            if rng.random() < 0.3:
                for k in range(rng.randint(6, 14)):
                    w = rng.choice([f"many{k}", f"many{k}", src.value])
                    if "\n" not in w and "{{" not in w and (w != src.value or src.value == src.text):
                        v.items.insert(rng.randint(0, len(v.items)), R.Sc(w, w))
        for it in v.items:
            repeat(it, rng)

