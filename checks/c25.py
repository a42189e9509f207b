"""C25: recipe objects are independent of each other, whatever the interleaving, thread or process."""

from __future__ import annotations

import copy
import os
import pickle
import random
import re
import struct
import subprocess
import sys
import threading
from typing import Any, Optional

from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C25"
LEVEL = "exploration"
RULE = (
    "2-5 live objects (parsers, readers, converters, dependency editors; copies by pickling and deep copying; several made from the same text) go through an interleaved history of "
    "edits and queries whose arguments and results are modified afterwards: after every operation, all other objects must be exactly as they were. "
    "The same histories are run in threads with forced switches and in another process, against the serial run. A case is non-trivial if at least three objects were changed."
)
ANCHORS = [f"conda_recipe_manager/parser/{f}" for f in (
    "recipe_reader.py", "recipe_parser.py", "recipe_parser_convert.py", "recipe_reader_deps.py", "recipe_parser_deps.py", "_node.py", "selector_parser.py", "_traverse.py")] + ["conda_recipe_manager/types.py"]
COUNTS = {"quick": 1200, "thorough": 40000}
REQUIRED = ["histories", "threaded", "remote", "edits", "queries", "results_modified", "arguments_modified", "copies", "conversions", "state_comparisons"]
ASSUMPTIONS = ["Each object is used by one thread at a time.", "Shallow copies (copy.copy) are not separate objects."]


def ruin(v: Any, depth: int = 0) -> bool:
    """Modifies everything that can be modified in a value that was returned."""
    done = False
    if depth > 6:
        return False
    if isinstance(v, dict):
        for x in list(v.values()):
            done |= ruin(x, depth + 1)
        try:
            v["ruined"] = "RUINED"
            for k in list(v)[:1]:
                if k != "ruined":
                    del v[k]
        except TypeError:
            pass
        return True
    if isinstance(v, list):
        for x in v:
            done |= ruin(x, depth + 1)
        v.append("RUINED")
        v.reverse()
        return True
    if isinstance(v, set):
        v.add("RUINED")
        return True
    if isinstance(v, tuple):
        for x in v:
            done |= ruin(x, depth + 1)
    return done


def state(o: Any) -> str:
    """Everything observable of an object (without sharing anything with the caller)."""
    out = [type(o).__name__, o.render(), repr([(v, o.get_variable(v)) for v in o.list_variables()]), repr(o.list_selectors()), repr(o.is_modified())]
    out.append(repr([(s, o.get_selector_paths(s)) for s in o.list_selectors()[:4]]))
    try:
        out.append(repr(o.get_comments_table()))
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.append(repr(e))
    if hasattr(o, "diff"):
        out.append(o.diff())
    return "\n".join(out)


EDITS = ["replace", "replace", "add_key", "add_key", "add_item", "remove", "move", "set_variable", "set_variable", "del_variable", "add_selector", "add_selector", "remove_selector", "add_comment", "search_and_patch",
         "add_dependency", "remove_dependency"]
QUERIES = ["get_value", "get_value", "get_value_sub", "render_to_object", "render_to_object_sub", "list_value_paths", "list_variables", "get_variable", "get_variable", "list_selectors", "get_selector_paths", "get_comments_table",
           "get_package_paths", "get_dependency_paths", "search", "find_value", "references", "dependencies", "names_to_path", "convert", "schema", "eq", "str"]


def do(o: Any, op: tuple[str, int, int], box: Optional[dict[str, Any]] = None) -> Any:
    """Applies an operation; its arguments are picked from the state of the object. `box` collects what to modify afterwards."""
    from conda_recipe_manager.parser.enums import SelectorConflictMode

    kind, a, b = op
    rnd = random.Random(a * 1000003 + b)
    paths = o.list_value_paths()
    path = paths[a % len(paths)] if paths else "/x"
    top = "/" + path.split("/")[1] if paths else "/x"
    names = o.list_variables()
    var = names[b % len(names)] if names else "nope"
    val: Any = rnd.choice([f"v{b}", b % 100, True, [f"a{b}", 2], [], {}, {"k": [1, {"z": f"y{b}"}]}, ["x", ["y"]], None, "two\nlines", [{"a": 1, "b": [2]}], "{{ name }}"])
    if box is not None:
        box["argument"] = val
    try:
        if kind == "replace":
            return o.patch({"op": "replace", "path": path, "value": val})
        if kind == "add_key":
            return o.patch({"op": "add", "path": f"{top}/new{b % 5}" if rnd.random() < 0.6 else f"/new{b % 5}", "value": val})
        if kind == "add_item":
            parent = path.rsplit("/", 1)[0]
            return o.patch({"op": "add", "path": parent + "/-", "value": val})
        if kind == "remove":
            return o.patch({"op": "remove", "path": path})
        if kind == "move":
            return o.patch({"op": rnd.choice(["move", "copy"]), "from": path, "path": f"/moved{b % 4}"})
        if kind == "set_variable":
            return o.set_variable(rnd.choice([var, f"nv{b % 3}"]), rnd.choice([f"w{b}", b, [f"w{b}"]]) if not isinstance(val, list) else val)
        if kind == "del_variable":
            return o.del_variable(var)
        if kind == "add_selector":
            return o.add_selector(path, rnd.choice(["[win]", "[osx]", "[not linux]", "[py<38]"]), rnd.choice(list(SelectorConflictMode)))
        if kind == "remove_selector":
            sel = o.list_selectors()
            ps = o.get_selector_paths(sel[a % len(sel)]) if sel else []
            return o.remove_selector(ps[0] if ps else path)
        if kind == "add_comment":
            return o.add_comment(path, f"note {b}")
        if kind == "search_and_patch":
            return o.search_and_patch("[a-f]", {"op": "replace", "value": val})
        if kind in ("add_dependency", "remove_dependency"):
            from conda_recipe_manager.parser.dependency import Dependency, DependencySection, dependency_data_from_str

            if not hasattr(o, "add_dependency"):
                return None
            deps = o.get_all_dependencies()
            flat = [d for k in sorted(deps) for d in deps[k]]
            if kind == "remove_dependency":
                return o.remove_dependency(flat[a % len(flat)]) if flat else None
            return o.add_dependency(Dependency(o.get_recipe_name() or "x", f"/requirements/run/{a % 3}", DependencySection.RUN_DEPENDENCY if hasattr(DependencySection, "RUN_DEPENDENCY") else DependencySection.RUN,
                                               dependency_data_from_str(f"dep{b % 7} >={b % 9}")))
        if kind == "get_value":
            return o.get_value(path if b % 3 else top, default=None)
        if kind == "get_value_sub":
            return o.get_value(path if b % 3 else top, default=None, sub_vars=True)
        if kind == "render_to_object":
            return o.render_to_object()
        if kind == "render_to_object_sub":
            return o.render_to_object(True)
        if kind == "get_variable":
            return o.get_variable(var)
        if kind == "get_selector_paths":
            sel = o.list_selectors()
            return o.get_selector_paths(sel[a % len(sel)]) if sel else None
        if kind == "search":
            return o.search("[aeiou]+")
        if kind == "find_value":
            v = o.get_value(path, default=None)
            return o.find_value(v) if isinstance(v, (str, int)) else None
        if kind == "references":
            return o.get_variable_references(var)
        if kind == "dependencies":
            return {k: [str(d) for d in v] for k, v in o.get_all_dependencies().items()} if hasattr(o, "get_all_dependencies") and b % 2 else (o.get_all_dependencies() if hasattr(o, "get_all_dependencies") else None)
        if kind == "names_to_path":
            return o.get_package_names_to_path() if hasattr(o, "get_package_names_to_path") else None
        if kind == "convert":
            from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert

            if isinstance(o, RecipeParserConvert):
                text, tbl, base = o.render_to_v1_recipe_format()
                return (text, str(tbl.get_totals_message()), base)
            text, tbl, base = RecipeParserConvert(o.render()).render_to_v1_recipe_format()
            return (text, str(tbl.get_totals_message()), base)
        if kind == "schema":
            return (int(o.get_schema_version()), o.is_multi_output(), o.calc_sha256())
        if kind == "eq":
            return o == o
        if kind == "str":
            return str(o)
        return getattr(o, kind)()
    except Exception as e:  # pylint: disable=broad-exception-caught
        return f"{type(e).__name__}: {e}"[:300]


def fingerprint(v: Any) -> str:
    return re.sub(r" at 0x[0-9a-f]+", "", repr(v))


def make_text(rng: random.Random) -> str:
    r = rng.random()
    doc = R.recipe_v0(rng) if r < 0.6 else R.rand_doc(rng, depth=2, schema=0 if r < 0.8 else 1)
    if doc.schema == 0 and rng.random() < 0.5:
        doc.variables["data"] = rng.choice([[1, 2], {"a": [1]}, ["x", "y"]])
    if rng.random() < 0.5:
        doc.root.entries.append(R.Entry("flow", R.Map([R.Entry("one", R.Sc([1, "x", ["y"]], '[1, "x", ["y"]]')), R.Entry("two", R.Sc({"p": [1]}, "{p: [1]}")), R.Entry("three", R.Sc([], "[]"))])))
    # Sections that the tool does not know
    names = rng.sample(["extra-one", "extra_two", "channels", "app", "zz"], rng.randint(0, 3))
    taken = {e.key for e in doc.root.entries if isinstance(e, R.Entry)}
    for n in names:
        if n not in taken:
            doc.root.entries.append(R.Entry(n, R.Map([R.Entry("a", R.Sc("b", "b"))])))
    return R.emit(doc)


def make_object(rng: random.Random, text: str) -> Any:
    from conda_recipe_manager.parser.recipe_parser import RecipeParser
    from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
    from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps

    return rng.choice([RecipeParser, RecipeParser, RecipeParserDeps, RecipeParserConvert])(text)


def script(rng: random.Random, n: int) -> list[tuple[str, int, int]]:
    return [(rng.choice(EDITS if rng.random() < 0.5 else QUERIES), rng.randrange(1000), rng.randrange(1000)) for _ in range(n)]


def history(rng: random.Random, obs: Obs) -> None:
    obs.count("histories")
    text = make_text(rng)
    live: list[Any] = []
    for _ in range(rng.randint(2, 3)):
        live.append(make_object(rng, text if rng.random() < 0.7 else make_text(rng)))
    log: list[Any] = []
    obs.data(text=text, log=log)
    states = [state(o) for o in live]
    changed: set[int] = set()
    for op in script(rng, rng.randint(8, 22)):
        k = rng.randrange(len(live))
        if len(live) < 5 and rng.random() < 0.1:
            how = rng.choice(["pickle", "deepcopy", "reparse", "deepcopy"])
            log.append((k, how))
            new = pickle.loads(pickle.dumps(live[k])) if how == "pickle" else copy.deepcopy(live[k]) if how == "deepcopy" else type(live[k])(live[k].render())
            s = state(new)
            if how != "reparse" and s != states[k]:
                raise Violation(f"a {how} copy differs from its original", f"copy {how}", original=states[k], copy=s)
            live.append(new)
            states.append(s)
            obs.count("copies")
        log.append((k, *op))
        box: dict[str, Any] = {}
        res = do(live[k], op, box)
        query = op[0] in QUERIES
        obs.count("queries" if query else "edits")
        if op[0] == "convert":
            obs.count("conversions")
        after = state(live[k])
        if query and after != states[k] and op[0] != "convert":
            raise Violation(f"the query {op[0]} changed the object", f"query {op[0]}", before=states[k], after=after)
        if op[0] == "convert" and after.replace("True", "False") != states[k].replace("True", "False"):
            raise Violation("converting changed the object converted", "convert", before=states[k], after=after)
        if after != states[k]:
            changed.add(k)
        states[k] = after
        # What was handed in or out belongs to the caller
        if ruin(res):
            obs.count("results_modified")
            if state(live[k]) != after:
                raise Violation(f"modifying the result of {op[0]} changed the object", f"result {op[0]}", before=after, after=state(live[k]))
        if not query and ruin(box.get("argument")):
            obs.count("arguments_modified")
            if state(live[k]) != after:
                raise Violation(f"modifying the argument of {op[0]} afterwards changed the object", f"argument {op[0]}", before=after, after=state(live[k]))
        for j, o in enumerate(live):
            if j != k:
                obs.count("state_comparisons")
                s = state(o)
                if s != states[j]:
                    raise Violation(f"{op[0]} on object {k} changed object {j}", f"other {op[0]}", before=states[j], after=s)
    obs.seen("histories", repr([(x[0], x[1]) for x in log]))
    if len(changed) >= 2:
        obs.distinct(log)
        obs.sample(log[:6], 1)


def run_script(o: Any, ops: list[tuple[str, int, int]]) -> list[str]:
    out = []
    for op in ops:
        box: dict[str, Any] = {}
        r = do(o, op, box)
        out.append(fingerprint(r))
        ruin(r)
        ruin(box.get("argument"))
    out.append(state(o))
    return out


def threaded(rng: random.Random, obs: Obs) -> None:
    obs.count("threaded")
    n = rng.randint(2, 5)
    text = make_text(rng)
    plans: list[tuple[int, str, list[tuple[str, int, int]]]] = []
    for _ in range(n):
        plans.append((rng.randrange(1 << 30), text if rng.random() < 0.6 else make_text(rng), script(rng, rng.randint(5, 10))))
    obs.data(plans=plans)
    serial = [run_script(make_object(random.Random(s), t), ops) for s, t, ops in plans]
    got: list[Any] = [None] * n
    order: list[int] = []
    gate = threading.Barrier(n)

    def work(k: int) -> None:
        s, t, ops = plans[k]
        gate.wait()
        o = make_object(random.Random(s), t)
        out = []
        for op in ops:
            order.append(k)
            box: dict[str, Any] = {}
            r = do(o, op, box)
            out.append(fingerprint(r))
            ruin(r)
            ruin(box.get("argument"))
        out.append(state(o))
        got[k] = out

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    obs.seen("interleavings", repr(order))
    obs.count("thread_switches", sum(1 for x, y in zip(order, order[1:]) if x != y))
    for k in range(n):
        if got[k] != serial[k]:
            i = next((i for i, (x, y) in enumerate(zip(got[k] or [], serial[k])) if x != y), -1)
            raise Violation(f"thread {k}, step {i}: the result differs from the serial run", "threads", got=(got[k] or [None])[i], expected=serial[k][i])
    obs.distinct(plans)


# ---------------------------------------------------------------------------------------------------------------------
# Another process

_HELPER: Optional[subprocess.Popen[bytes]] = None


def helper() -> subprocess.Popen[bytes]:
    global _HELPER
    if _HELPER is None or _HELPER.poll() is not None:
        env = dict(os.environ)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env["PYTHONPATH"] = os.pathsep.join([env.get("PYTHONPATH", ""), here])
        _HELPER = subprocess.Popen([sys.executable, "-c", "from checks import c25; c25.serve()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/")
    return _HELPER


def serve() -> None:
    """The other process: takes (pickled object, script), returns (results, pickled object)."""
    from lib import core

    core.setup_env()
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        o, ops = pickle.loads(inp.read(struct.unpack("<I", head)[0]))
        try:
            res: Any = (run_script(o, ops), o)
        except Exception as e:  # pylint: disable=broad-exception-caught
            res = (repr(e), None)
        data = pickle.dumps(res)
        out.write(struct.pack("<I", len(data)) + data)
        out.flush()


def remote(rng: random.Random, obs: Obs) -> None:
    obs.count("remote")
    text = make_text(rng)
    o = make_object(rng, text)
    before_ops, ops, later = script(rng, rng.randint(0, 4)), script(rng, rng.randint(3, 8)), script(rng, rng.randint(1, 5))
    obs.data(text=text, before=before_ops, ops=ops, later=later)
    run_script(o, before_ops)
    twin = copy.deepcopy(o)
    here = state(o)
    h = helper()
    data = pickle.dumps((o, ops))
    assert h.stdin is not None and h.stdout is not None
    h.stdin.write(struct.pack("<I", len(data)) + data)
    h.stdin.flush()
    head = h.stdout.read(4)
    if len(head) < 4:
        raise Violation("the other process died while working on the object", "remote died")
    results, back = pickle.loads(h.stdout.read(struct.unpack("<I", head)[0]))
    if state(o) != here:
        raise Violation("work in another process changed the object here", "remote leak")
    want = run_script(twin, ops)
    if back is None or results != want:
        i = next((i for i, (x, y) in enumerate(zip(results, want)) if x != y), -1)
        raise Violation(f"in another process, step {i} of {ops} gives {results[i][:300] if back is not None else results!r} instead of {want[i][:300]}", "remote results")
    if state(back) != state(twin):
        raise Violation("the object that came back from another process differs", "remote state", got=state(back), expected=state(twin))
    if run_script(back, later) != run_script(twin, later):
        raise Violation("the object that came back from another process behaves differently", "remote behaviour")
    obs.distinct((text, ops))


def case(i: int, rng: random.Random, obs: Obs) -> None:
    if i % 4 == 1:
        threaded(rng, obs)
    elif i % 4 == 3:
        remote(rng, obs)
    else:
        history(rng, obs)
