"""C03: JSON patches follow RFC 6902 (reference model on the plain object, compared after every operation)."""

from __future__ import annotations

import copy
import random
from typing import Any

from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C03"
LEVEL = "exploration"
RULE = (
    "Random recipes (model-first generator, V0 and V1, comments, selectors, block scalars, Jinja) put through random "
    "histories of 1-12 add/remove/replace/move/copy/test operations with valid, invalid and out-of-range paths; a "
    "reference RFC 6902 model of the plain object is stepped alongside. A case is non-trivial if at least one patch "
    "changed the recipe; it is identified by its text and operations."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_parser.py", "conda_recipe_manager/parser/_traverse.py"]
COUNTS = {"quick": 2600, "thorough": 60000}
REQUIRED = ["whole_document"] + [f"op_{o}_{r}" for o in ("add", "remove", "replace", "move", "copy", "test") for r in ("ok", "refused")] + [
    "append_by_index", "move_below_itself", "comments_tracked", "sections_compared", "invalid_payload_rejected",
]
ASSUMPTIONS = [
    "Collections written on one line (flow style) are terminal values by the parser's documentation; paths into them are not generated.",
    "An object or list that loses its last member may read back as null (a key without a value).",
    "Strings with newlines compare modulo trailing newlines.",
]

EITHER = object()


class Refused(Exception):
    pass


def parts_of(path: str) -> list[str]:
    return path[1:].split("/")


def find(obj: Any, parts: list[str]) -> Any:
    for p in parts:
        if isinstance(obj, list):
            if not p.isdecimal() or int(p) >= len(obj):
                raise Refused()
            obj = obj[int(p)]
        elif isinstance(obj, dict):
            if p.isdecimal() or p not in obj:
                raise Refused()
            obj = obj[p]
        else:
            raise Refused()
    return obj


class Null(Exception):
    """The parent is null or empty: a key without a value may or may not accept its first member."""


def m_add(obj: Any, path: str, value: Any) -> None:
    *par, last = parts_of(path)
    c = find(obj, par)
    if isinstance(c, (dict, list)) and not c:
        raise Null()
    if isinstance(c, list):
        if last == "-":
            c.append(value)
        elif last.isdecimal() and int(last) <= len(c):
            c.insert(int(last), value)
        else:
            raise Refused()
    elif isinstance(c, dict):
        if last == "-" or last.isdecimal():
            raise Refused()
        c[last] = value
    elif c is None:
        raise Null()
    else:
        raise Refused()


def settle(obj: Any) -> Any:
    """Containers emptied by an operation: the key has no value left."""
    return obj


def m_remove(obj: Any, path: str) -> None:
    *par, last = parts_of(path)
    c = find(obj, par)
    find(obj, par + [last])
    if isinstance(c, list):
        c.pop(int(last))
    else:
        del c[last]


def m_replace(obj: Any, path: str, value: Any) -> None:
    *par, last = parts_of(path)
    c = find(obj, par)
    find(obj, par + [last])
    if isinstance(c, list):
        c[int(last)] = value
    else:
        c[last] = value


def norm(v: Any) -> Any:
    """Empty containers and null are not told apart below; trailing newlines are ignored."""
    if isinstance(v, str):
        return v.rstrip("\n")
    if isinstance(v, list):
        return [norm(x) for x in v] or None
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()} or None
    return v


def jeq(a: Any, b: Any) -> bool:
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(jeq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(jeq(x, y) for x, y in zip(a, b))
    return isinstance(a, bool) == isinstance(b, bool) and a == b


def all_paths(obj: Any, path: str = "", in_list: bool = False) -> list[str]:
    out = [path] if path else []
    if isinstance(obj, dict):
        for k, v in obj.items():
            if str(k).isdecimal():
                continue
            out += all_paths(v, f"{path}/{k}")
    elif isinstance(obj, list) and not in_list:
        for i, v in enumerate(obj):
            out += all_paths(v, f"{path}/{i}", True)
    return out


def containers(obj: Any) -> list[str]:
    out = []
    for p in all_paths(obj):
        v = find(obj, parts_of(p))
        if isinstance(v, dict) and v or isinstance(v, list) and v and not p.rsplit("/", 1)[-1].isdecimal():
            out.append(p)
    return out


def rand_value(rng: random.Random, depth: int = 2, top: bool = True) -> Any:
    r = rng.random()
    if depth and r < 0.15:
        return {rng.choice(R.ODD_KEYS) if rng.random() < 0.02 else R.word(rng): rand_value(rng, depth - 1, False) for _ in range(rng.randint(0 if rng.random() < 0.2 else 1, 3))}
    if depth and r < 0.3:
        return [rand_value(rng, depth - 1, False) for _ in range(rng.randint(0 if rng.random() < 0.2 else 1, 3))]
    if r < 0.38:
        lines = [R.sentence(rng) for _ in range(rng.randint(2, 4))]
        if rng.random() < 0.3:
            lines.insert(1, rng.choice(["", "  indented", "key: value", "# hash", "- item", "trail  "]))
        return "\n".join(lines) + rng.choice(["", "\n"])
    if r < 0.42:
        return None
    if r < 0.5:
        # Double quotes in substitutions are not generated in nested lists (see DESIGN.md, limits of one-line lists).
        return rng.choice(["{{ name }}", "x-{{ version }}.tgz", "{{ compiler('c') }}"] + ["{{ pin_compatible(\"numpy\") }}"] * top)
    if r < 0.56:
        return rng.choice([0, 1, -1, True, False, 1.5, 10**12, 1e20, 1e-7])
    return R.scalar(rng).value


def rand_path(rng: random.Random, obj: Any, kind: str) -> str:
    paths = all_paths(obj) or ["/nothing"]
    conts = containers(obj)
    r = rng.random()
    if kind in ("add", "dest") and r < 0.75:
        c = rng.choice(conts + [""] if conts else [""])
        v = find(obj, parts_of(c)) if c else obj
        if isinstance(v, list):
            return f"{c}/{rng.choice(['-', '-', str(rng.randint(0, len(v))), str(len(v)), str(len(v) + 1), str(rng.randint(0, len(v)))])}"
        return f"{c}/{rng.choice([R.word(rng), R.word(rng), R.word(rng), rng.choice(R.ODD_KEYS) if rng.random() < 0.2 else R.word(rng), '²', rng.choice(list(v)) if v else R.word(rng)])}"
    if r < 0.85:
        return rng.choice(paths)
    p = rng.choice(paths)
    return rng.choice([f"{p}/{R.word(rng)}", f"{p}/0", f"{p}/-", f"{p}/99", f"/{R.word(rng)}/{R.word(rng)}", p.rsplit("/", 1)[0] + "/zz",
                       p.rsplit("/", 1)[0] + "/9", f"{p}/{R.word(rng)}/0", f"{p}/³"])


def whole(p: Any, model: Any, lossy: bool, rng: random.Random, obs: Obs, ops: list[dict[str, Any]]) -> tuple[Any, bool]:
    """Patches whose target is the whole recipe."""
    op = rng.choice(["add", "replace", "remove", "test", "replace"])
    patch: dict[str, Any] = {"op": op, "path": "/"}
    expected, want = model, False
    if op in ("add", "replace", "test"):
        v: Any = rng.choice([{}, [], "text", None, 1, ["a"], True, {"about": {"home": "x"}}, {"package": {"name": "x"}, "build": {"number": 3, "script": ["a", "b"]}}])
        if op == "test":
            v = rng.choice([v, copy.deepcopy(model)])
            want = EITHER if lossy or jeq(norm(v), norm(model)) != jeq(v, model) or not R.same(R.strip_nl(model), model) else jeq(v, model)
        elif isinstance(v, dict) and v:
            want, expected = True, copy.deepcopy(v)
        patch["value"] = v
    ops.append(copy.deepcopy(patch))
    before, before_mod = p.render(), p.is_modified()
    ret = p.patch(patch)
    if want is not EITHER and ret is not want:
        raise Violation(f"{patch} returned {ret}, expected {want}", "verdict of the whole recipe")
    d = R.diff_obj(norm(expected), norm(p.render_to_object())) or R.diff_obj(norm(expected), norm(R.yaml_oracle(p.render())))
    if d:
        raise Violation(f"after {patch} (returned {ret}): {d}", "object of the whole recipe", rendered=p.render())
    changes = bool(ret) and op != "test"
    if not changes and (p.render() != before or p.is_modified() != before_mod):
        raise Violation(f"{patch} returned {ret} but changed the recipe", "atomic for the whole recipe")
    if changes and not p.is_modified():
        raise Violation(f"{patch} is not a modification", "modified by the whole recipe")
    return expected, changes


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.recipe_parser import RecipeParser

    if i % 3 == 0:
        doc = R.recipe_v0(rng)
    else:
        doc = R.rand_doc(rng, depth=rng.randint(2, 4), schema=rng.choice([0, 0, 1]))
    # Unique comments, so that each one can be told apart afterwards.
    n_com = 0
    where: dict[str, str] = {}
    for path, owner in R.commented(doc.root):
        if isinstance(owner, R.Multi):
            continue
        if owner.comment.startswith("#") and not owner.comment.startswith("# ["):
            n_com += 1
            owner.comment = f"# c{n_com}c"
            where[owner.comment] = path
    text = R.emit(doc)
    model = R.to_obj(doc.root)
    ops: list[dict[str, Any]] = []
    obs.data(text=text, ops=ops)
    p = RecipeParser(text)
    d = R.diff_obj(norm(model), norm(p.render_to_object()))
    if d:
        raise Violation(f"recipe did not parse as written: {d}", "parse")
    changed = False
    modified = False
    lossy = False  # an empty container was folded into null in the model
    variables_before = {k: p.get_variable(k) for k in p.list_variables()}
    for step in range(rng.randint(1, 12)):
        op = rng.choice(["add", "add", "add", "remove", "replace", "replace", "move", "copy", "test"])
        patch: dict[str, Any] = {"op": op}
        if op in ("add", "replace", "test"):
            patch["path"] = rand_path(rng, model, op)
            patch["value"] = rand_value(rng)
        elif op == "remove":
            patch["path"] = rand_path(rng, model, op)
        else:
            patch["from"] = rand_path(rng, model, op)
            patch["path"] = patch["from"] if rng.random() < 0.08 else rand_path(rng, model, "dest")
            below = [c for c in all_paths(model) if c.startswith(patch["from"] + "/")]
            if below and rng.random() < 0.25:
                patch["path"] = rng.choice([rng.choice(below), rng.choice(below) + "/" + R.word(rng)])
                if patch["op"] == "move" and patch["path"].count("/") > patch["from"].count("/") + 1:
                    obs.count("move_below_itself")
        if op == "test" and rng.random() < 0.7:
            try:
                patch["value"] = copy.deepcopy(find(model, parts_of(patch["path"])))
                if rng.random() < 0.3:
                    patch["value"] = near_miss(rng, patch["value"])
            except Refused:
                pass
        if len(model) == 1 and op in ("remove", "move") and len(parts_of(patch.get("from", patch["path"]))) == 1:
            continue  # a recipe always has a section
        if any(into_nested_list(model, patch[k]) for k in ("from", "path") if k in patch):
            continue  # lists in lists are written on one line and are terminal values
        ops.append(copy.deepcopy(patch))
        before_text = p.render()
        before_obj = p.render_to_object()
        expected: Any = copy.deepcopy(model)
        want: Any = True
        value = copy.deepcopy(patch.get("value"))
        try:
            if op == "add":
                if patch["path"].rsplit("/", 1)[-1].isdecimal():
                    par = find(expected, parts_of(patch["path"])[:-1])
                    if isinstance(par, list) and int(patch["path"].rsplit("/", 1)[-1]) == len(par):
                        obs.count("append_by_index")
                m_add(expected, patch["path"], value)
            elif op == "remove":
                m_remove(expected, patch["path"])
            elif op == "replace":
                m_replace(expected, patch["path"], value)
            elif op == "test":
                got = find(expected, parts_of(patch["path"]))
                want = jeq(got, value)
                if jeq(norm(got), norm(value)) and (lossy or not (want and R.same(R.strip_nl(got), got))):
                    want = EITHER
            elif op == "copy":
                v = copy.deepcopy(find(expected, parts_of(patch["from"])))
                m_add(expected, patch["path"], v)
            elif op == "move":
                find(expected, parts_of(patch["from"]))
                if patch["from"] != patch["path"]:
                    if patch["path"].startswith(patch["from"] + "/"):
                        raise Refused()
                    v = find(expected, parts_of(patch["from"]))
                    m_remove(expected, patch["from"])
                    m_add(expected, patch["path"], v)
        except Refused:
            want, expected = False, copy.deepcopy(model)
        except Null:
            want = EITHER
        sent = copy.deepcopy(patch)
        ret = p.patch(patch)
        if patch != sent:
            raise Violation(f"patch() changed its argument: {sent} -> {patch}", "argument")
        if not isinstance(ret, bool):
            raise Violation(f"patch() returned {ret!r}", "type")
        after = p.render_to_object()
        rendered = p.render()
        if want is EITHER:
            if op == "test":
                expected = model
            elif ret:
                # A key without a value took its first member.
                model2 = copy.deepcopy(model)
                if op == "move":
                    v = find(model2, parts_of(patch["from"]))
                    m_remove(model2, patch["from"])
                elif op == "copy":
                    v = copy.deepcopy(find(model2, parts_of(patch["from"])))
                else:
                    v = value
                force_add(model2, patch["path"], v)
                expected = model2
                obs.count("null_container_accepted_member")
            else:
                expected = model
        elif ret != want:
            raise Violation(f"step {step}: {sent} returned {ret}, expected {want}", f"verdict {op} {want}")
        d = R.diff_obj(norm(expected), norm(after))
        if d:
            raise Violation(f"step {step}: after {sent} (returned {ret}): {d}", f"object {op}", rendered=rendered)
        try:
            reread = R.yaml_oracle(rendered)
        except Exception as e:
            raise Violation(f"step {step}: after {sent}: rendered text is not YAML: {e}", f"yaml {op}", rendered=rendered) from e
        d = R.diff_obj(norm(expected), norm(reread))
        if d:
            raise Violation(f"step {step}: after {sent}: rendered text reads differently: {d}", f"text {op}", rendered=rendered)
        obs.count(f"op_{op}_{'ok' if ret else 'refused'}")
        obs.count("steps")
        # Failed operations and `test` change nothing.
        if (op == "test" or not ret) and (rendered != before_text or not R.same(before_obj, after)):
            raise Violation(f"step {step}: {sent} returned {ret} but changed the recipe", f"atomic {op}")
        if ret and op != "test" and not (op == "move" and sent["from"] == sent["path"]):
            modified = True
        if p.is_modified() != modified:
            raise Violation(f"step {step}: is_modified() is {p.is_modified()}, expected {modified}", "modified")
        # Locality: other top-level sections are byte-identical.
        touched = {parts_of(sent[k])[0] for k in ("path", "from") if k in sent}
        sb, sa = R.sections(before_text, False), R.sections(rendered, False)
        for k in sb:
            if k not in touched:
                if sa.get(k) != sb[k]:
                    raise Violation(f"step {step}: {sent} changed section {k!r}", f"locality {op}", before=sb[k], after=sa.get(k))
                obs.count("sections_compared")
        # Comments on lines that were not targeted survive the first operation.
        if step == 0 and ret and op != "test":
            gone = [sent[k] for k in ("path", "from") if k in sent and not (op == "copy" and k == "from")]
            for tag, at in where.items():
                if any(at == g or at.startswith(g + "/") for g in gone):
                    continue
                obs.count("comments_tracked")
                if rendered.count(tag) != 1:
                    raise Violation(f"{sent}: comment {tag!r} of {at} found {rendered.count(tag)} times afterwards", f"comment {op}", rendered=rendered)
        if ret and op != "test" and not R.same(model, expected):
            changed = True
        model = prune(expected)
        lossy = lossy or not R.same(model, expected)
        # Values are found again by path.
        for q in rng.sample(all_paths(model), min(4, len(all_paths(model)))):
            want_v = find(model, parts_of(q))
            if want_v is None or want_v == {} or want_v == []:
                continue
            if not p.contains_value(q):
                raise Violation(f"step {step}: {q} not found after {sent}", "lookup")
            d = R.diff_obj(norm(want_v), norm(p.get_value(q)))
            if d:
                raise Violation(f"step {step}: get_value({q!r}) after {sent}: {d}", "lookup value")
        if not model:
            break
    if rng.random() < 0.25 and model and doc.schema == 0:
        model, mod = whole(p, model, lossy, rng, obs, ops)
        modified = modified or mod
        obs.count("whole_document")
    want_vars: Any = variables_before
    if doc.schema == 1:
        # The variables of V1 recipes are a section that patches may change
        context = model.get("context")
        want_vars = context if isinstance(context, dict) else {}
        if want_vars != variables_before:
            obs.count("context_edits")
    got_vars = {k: p.get_variable(k) for k in p.list_variables()}
    if norm(got_vars) != norm(want_vars):
        raise Violation("the variables are not the ones the patches leave", "variables", got=got_vars, want=want_vars)
    if (p.diff() != "") != (modified and p.diff() != "") or (not modified and p.diff()):
        raise Violation("diff() of an unmodified recipe is not empty", "diff")
    if changed:
        obs.distinct((text, ops))
        obs.sample({"text": text[:400], "ops": ops[:4]}, 1)
    if i % 20 == 0:
        bad_payloads(p, rng, obs)


def bad_payloads(p: Any, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.exceptions import JsonPatchValidationException

    before = p.render()
    for patch in (
        {"op": "frobnicate", "path": "/a", "value": 1}, {"op": "add", "path": "/a"}, {"op": "move", "path": "/a"},
        {"op": "add", "path": 1, "value": 2}, {"path": "/a", "value": 1}, {"op": "remove"}, {"op": "test", "path": ""},
        {"op": "replace", "path": "/a", "value": 1, "x": 1}, {"op": "copy", "path": "/a", "from": 3}, {},
    ):
        try:
            r = p.patch(patch)
        except JsonPatchValidationException:
            obs.count("invalid_payload_rejected")
            if p.render() != before:
                raise Violation(f"rejected payload {patch} changed the recipe", "payload")
            continue
        raise Violation(f"invalid payload {patch} was accepted (returned {r})", "payload accepted")


def prune(obj: Any) -> Any:
    """Containers that lost their last member read back as null below keys."""
    if isinstance(obj, dict):
        return {k: (None if v in ({}, []) and isinstance(v, (dict, list)) else prune(v)) for k, v in obj.items()}
    if isinstance(obj, list):
        return [prune(v) for v in obj]
    return obj


def force_add(obj: Any, path: str, value: Any) -> None:
    *par, last = parts_of(path)
    owner = find(obj, par[:-1]) if par else None
    new: Any = [value] if last == "-" or last.isdecimal() else {last: value}
    if isinstance(owner, list):
        owner[int(par[-1])] = new
    else:
        owner[par[-1]] = new


def into_nested_list(obj: Any, path: str) -> bool:
    parts = parts_of(path)
    for k, p in enumerate(parts):
        if isinstance(obj, list):
            if not p.isdecimal() or int(p) >= len(obj):
                return False
            obj = obj[int(p)]
            if isinstance(obj, list) and k < len(parts) - 1:
                return True
        elif isinstance(obj, dict) and p in obj:
            obj = obj[p]
        else:
            return False
    return False


def near_miss(rng: random.Random, v: Any) -> Any:
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return rng.choice([v + 1, str(v), bool(v) if v in (0, 1) else v + 1])
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, list):
        return v[:-1] if rng.random() < 0.5 else v + [None]
    if isinstance(v, dict):
        w = dict(v)
        if rng.random() < 0.5 and w:
            w.pop(next(iter(w)))
        else:
            w["zz"] = 1
        return w
    return 0
