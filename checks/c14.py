"""C14: the patch command applies its patch file completely and reports it."""

from __future__ import annotations

import copy
import json
import os
import random
import stat
import subprocess
import sys
from typing import Any, Callable

from checks import c03
from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C14"
LEVEL = "exploration"
RULE = (
    "The patch command runs on random V0 and V1 recipes with random patch files: lists of operations and single operations, operations that must fail (missing paths, failed tests, moves into themselves) or that are no operations at any "
    "position, files that are not JSON, not UTF-8, truncated, deeply nested, empty or directories, and malformed recipes. An RFC 6902 model says whether every operation applies and what the recipe must hold, read by PyYAML; the exit "
    "status must be the documented one, and the recipe must keep its bytes unless it is 0. Some runs are real processes in a locale without UTF-8. A case is non-trivial if at least two operations apply."
)
ANCHORS = ["conda_recipe_manager/commands/patch.py", "conda_recipe_manager/parser/recipe_parser.py"]
COUNTS = {"quick": 2400, "thorough": 60000}
REQUIRED = ["applied", "single_object", "empty_list", "refused_first", "refused_later", "invalid_first", "invalid_later", "not_json", "json_scalar", "directory_json", "directory_recipe", "not_utf8_recipe", "not_utf8_json", "malformed_recipe",
            "missing_file", "link", "mode", "real_process", "ascii_locale", "untouched_files"]
ASSUMPTIONS = ["Failing disks are out of scope: the recipe is rewritten in place.", "Keys without a value may or may not accept a first member (see C03); such operations are not generated.", "Paths into one-line lists are not generated."]

BAD_OPS: list[Any] = [{"op": "frobnicate", "path": "/a", "value": 1}, {"op": "add", "path": "/a"}, {"op": "move", "path": "/a"}, {"path": "/a", "value": 1}, {"op": "remove"}, {}, {"op": "replace", "path": "/a", "values": 1}, 3, "x", None, [],
                      {"op": "add", "path": 3, "value": 1}, {"op": "ADD", "path": "/a", "value": 1}]


def apply_model(model: Any, op: dict[str, Any]) -> bool:
    """Applies an operation to the model. Raises c03.Null if the outcome is not settled."""
    kind, path = op["op"], op["path"]
    work = copy.deepcopy(model)
    value = copy.deepcopy(op.get("value"))
    try:
        if kind == "add":
            c03.m_add(work, path, value)
        elif kind == "remove":
            c03.m_remove(work, path)
        elif kind == "replace":
            c03.m_replace(work, path, value)
        elif kind == "test":
            got = c03.find(work, c03.parts_of(path))
            same = c03.jeq(got, value)
            if c03.jeq(c03.norm(got), c03.norm(value)) and not (same and R.same(R.strip_nl(got), got)):
                raise c03.Null()
            return same
        else:
            c03.find(work, c03.parts_of(op["from"]))
            if path == op["from"]:
                if kind == "move":
                    return True
                raise c03.Null()
            if kind == "move" and path.startswith(op["from"] + "/"):
                return False
            v = copy.deepcopy(c03.find(work, c03.parts_of(op["from"])))
            if kind == "move":
                c03.m_remove(work, op["from"])
            c03.m_add(work, path, v)
    except c03.Refused:
        return False
    if not work or empties(work) != empties(model):
        raise c03.Null()
    model.clear()
    model.update(work)
    return True


def empties(v: Any) -> int:
    if isinstance(v, (dict, list)):
        return (not v) + sum(empties(x) for x in (v.values() if isinstance(v, dict) else v))
    return 0


def operation(rng: random.Random, model: Any) -> dict[str, Any]:
    kind = rng.choice(["add", "add", "add", "remove", "replace", "replace", "move", "copy", "test", "test"])
    op: dict[str, Any] = {"op": kind}
    if kind in ("move", "copy"):
        op["from"] = c03.rand_path(rng, model, kind)
        op["path"] = c03.rand_path(rng, model, "dest")
    else:
        op["path"] = c03.rand_path(rng, model, kind)
        if kind != "remove":
            op["value"] = c03.rand_value(rng)
        if kind == "test" and rng.random() < 0.8:
            try:
                op["value"] = copy.deepcopy(c03.find(model, c03.parts_of(op["path"])))
            except c03.Refused:
                pass
    return op


def run(args: list[str], cwd: str, real: bool, obs: Obs, rng: random.Random) -> tuple[int, str]:
    if real:
        obs.count("real_process")
        env = dict(os.environ)
        if rng.random() < 0.6:
            env.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
            obs.count("ascii_locale")
        r = subprocess.run([sys.executable, "-c", "from conda_recipe_manager.commands.conda_recipe_manager import conda_recipe_manager as m; m()", "patch", *args], cwd=cwd, env=env, capture_output=True, timeout=100)
        return r.returncode, (r.stdout + r.stderr).decode("utf-8", "replace")
    from click.testing import CliRunner

    from conda_recipe_manager.commands.patch import patch

    old = os.getcwd()
    os.chdir(cwd)
    try:
        res = CliRunner().invoke(patch, args)
    finally:
        os.chdir(old)
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        import traceback

        return 1, "Traceback: " + "".join(traceback.format_exception(res.exception))
    return res.exit_code, res.output


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.recipe_parser import RecipeParser

    root = os.path.join(obs.scratch, f"p{i}")
    os.makedirs(root)
    doc = R.recipe_v0(rng) if rng.random() < 0.4 else R.rand_doc(rng, depth=rng.randint(2, 4), schema=rng.choice([0, 0, 1]))
    text = R.emit(doc)
    if rng.random() < 0.2:
        text = "# é ü 漢字\n" + text
    model = R.to_obj(doc.root)
    ops: list[Any] = []
    want = 0
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
        for _try in range(20):
            op = operation(rng, model)
            if any(c03.into_nested_list(model, op[k]) for k in ("from", "path") if k in op):
                continue
            trial = copy.deepcopy(model)
            try:
                ok = apply_model(trial, op)
            except c03.Null:
                continue
            if not ok and rng.random() < 0.8:
                continue
            model = trial
            ops.append(op)
            if not ok:
                want = 106
                obs.count("refused_first" if len(ops) == 1 else "refused_later")
            break
        if want:
            break
    if want == 0 and rng.random() < 0.12:
        ops.append(rng.choice(BAD_OPS))
        want = 4
        obs.count("invalid_first" if len(ops) == 1 else "invalid_later")
    if want and rng.random() < 0.5:
        # Whatever follows is not applied
        ops.append(rng.choice([{"op": "add", "path": "/after", "value": 1}, {"op": "remove", "path": "/nothing"}, {"op": "bad"}]))
    payload: Any = ops
    if len(ops) == 1 and isinstance(ops[0], dict) and rng.random() < 0.6:
        payload = ops[0]
        obs.count("single_object")
    if not ops:
        obs.count("empty_list")
    blob = json.dumps(payload, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 2])).encode("utf-8")
    raw = text.encode("utf-8")
    rpath, jpath = os.path.join(root, "recipe.yaml"), os.path.join(root, "patch.json")
    # Broken files
    broken = rng.random()
    if broken < 0.03:
        blob, want = rng.choice([b"", b"{", b"[", b"op: add\npath: /a\n", blob[:-1] or b"{", b"[{]", b"{'op': 'remove', 'path': '/a'}", b"[" * 100000, b"nul"]), 4
        obs.count("not_json")
    elif broken < 0.05:
        blob, want = rng.choice([b"3", b'"x"', b"null", b"true", b"[[]]", b"[[{}]]", b"{}"]), 4
        obs.count("json_scalar")
    elif broken < 0.065:
        blob, want = b'[{"op": "add", "path": "/a", "value": "\xff\xfe"}]', 4
        obs.count("not_utf8_json")
    elif broken < 0.08:
        raw, want = b"package:\n  name: \xff\n", 5
        obs.count("not_utf8_recipe")
    elif broken < 0.1:
        raw, want = rng.choice([b"a: [1, 2\n", b"- {]\n", b"a:\n  b: {\n"]), 102
        obs.count("malformed_recipe")
    with open(jpath, "wb") as f:
        f.write(blob)
    target = rpath
    if rng.random() < 0.1:
        target = os.path.join(root, "real.yaml")
        os.symlink("real.yaml", rpath)
        obs.count("link")
    with open(target, "wb") as f:
        f.write(raw)
    mode = rng.choice([0o644, 0o600, 0o755])
    os.chmod(target, mode)
    os.makedirs(os.path.join(root, "dir"))
    args = [jpath, rpath]
    if broken > 0.985:
        args[0], want = os.path.join(root, "dir"), 5
        obs.count("directory_json")
    elif broken > 0.97:
        args[1], want = os.path.join(root, "dir"), 5
        obs.count("directory_recipe")
    elif broken > 0.96:
        args[rng.randint(0, 1)], want = os.path.join(root, "missing"), 2
        obs.count("missing_file")
    before = sorted(os.listdir(root))
    got, output = run(args, root, rng.random() < 0.02, obs, rng)
    with open(target, "rb") as f:
        after = f.read()
    obs.data(text=raw.decode("utf-8", "replace"), patch=blob[:3000].decode("utf-8", "replace"), exit=got, output=output[-1500:], after=after.decode("utf-8", "replace"))
    if got != want:
        raise Violation(f"exit status {got}, expected {want}", f"exit {want}")
    if sorted(os.listdir(root)) != before:
        raise Violation(f"other files appeared: {sorted(os.listdir(root))}", "files")
    with open(jpath, "rb") as f:
        if f.read() != blob:
            raise Violation("the patch file has changed", "patch file")
    if (target != rpath) != os.path.islink(rpath) or stat.S_IMODE(os.stat(target).st_mode) != mode:
        raise Violation("the recipe is another kind of file", "mode")
    obs.count("mode")
    if want:
        if after != raw:
            raise Violation(f"the command failed ({want}), but the recipe has changed", f"half-written {want}")
        obs.count("untouched_files")
        return
    # All operations were applied, in order
    try:
        reread = R.yaml_oracle(after.decode("utf-8"))
    except Exception as e:
        raise Violation(f"the recipe is not YAML any more: {e}", "yaml") from e
    d = R.diff_obj(c03.norm(model), c03.norm(reread))
    if d:
        raise Violation(f"the patched recipe differs from the operations' result: {d}", "content")
    p = RecipeParser(text)
    if all(p.patch(copy.deepcopy(o)) for o in ops) and p.render().encode() != after:
        raise Violation("the recipe on disk is not the rendered recipe", "rendering", want=p.render())
    obs.count("applied", len(ops))
    if len(ops) >= 2:
        obs.distinct((text, ops))
        obs.sample({"ops": ops[:3], "exit": got}, 1)


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    return []
