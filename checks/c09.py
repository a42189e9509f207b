"""C09: adding and removing dependencies edits exactly that list entry."""

from __future__ import annotations

import random
from typing import Any, Callable, Optional

from checks import c04, c08
from lib import deps as D
from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C09"
LEVEL = "exploration"
RULE = (
    "Random V0 recipes with requirement sections (one or several outputs; absent, empty, single-valued and one-line sections; comments, selectors, Jinja expressions, repeated names) put through random histories of 1-12 dependency "
    "additions (all conflict modes, selectors in all modes, new and known names, specifications taken from the recipe's own dependency map) and removals, with wrong paths and indices. After each request the rendered text is compared "
    "line by line with a model that allows the one entry only to change. A case is non-trivial if at least two requests changed the recipe."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_parser_deps.py", "conda_recipe_manager/parser/recipe_reader_deps.py", "conda_recipe_manager/parser/dependency.py"]
COUNTS = {"quick": 1500, "thorough": 60000}
REQUIRED = ["appended", "replaced", "exact", "ignored", "both", "new_section", "filled_empty_section", "removed", "removed_last", "refused", "selector_set", "selector_kept", "selector_combined", "selector_dropped", "single_value", "one_line",
            "variable_deps", "from_map", "multi_output", "resolved_names", "null_members"]
ASSUMPTIONS = ["V1 recipes are not covered: the code states that it does not support them.", "Replacing an entry drops its comment (as the tests pin for patches)."]


def raw_name(text: str, variables: dict[str, Any]) -> str:
    t = D.normal(D.resolve(text, variables, False)).strip()
    return t if c08.is_variable(t) else c08.package_of(t)


class View:
    def __init__(self, text: str) -> None:
        self.text, self.st = text, c04.State(text)
        self.obj = R.yaml_oracle(text)

    def section(self, base: str) -> tuple[str, Any]:
        """absent (or in an empty parent), empty, list (block), flow, single or no parent."""
        parent, _, key = base.rpartition("/")
        try:
            m = R.get_path(self.obj, parent)
        except KeyError:
            return "no parent", None
        if m is None:
            return "absent", None
        if key not in m:
            return "absent", None
        v = m[key]
        if v is None or v == []:
            return "empty", []
        if isinstance(v, list):
            return ("list" if f"{base}/0" in self.st.line else "flow"), v
        return "single", v


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.dependency import Dependency, DependencyConflictMode, DependencySection, dependency_data_from_str, dependency_data_render_as_str
    from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
    from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
    from conda_recipe_manager.parser.selector_parser import SelectorParser

    m = D.make(rng, com=rng.choice([0.1, 0.4]), v1=False)
    variables = dict(m.doc.variables)
    text = m.text
    if rng.random() < 0.1:
        # One section on one line
        text = flow(m, rng)
    obs.data(text=text)
    p = RecipeParserDeps(text)
    view = View(p.render())
    if m.multi:
        obs.count("multi_output")
    bases = [b for b in (["/requirements"] + [f"/outputs/{k}/requirements" for k in range(len(m.packages) - 1)])]
    history: list[Any] = []
    changes = 0
    for _ in range(rng.choice([1, 2, 4, 7, 12])):
        base = f"{rng.choice(bases)}/{rng.choice(['build', 'host', 'run', 'run_constrained'])}"
        kind, cur = view.section(base)
        names = [raw_name(x, variables) if isinstance(x, str) else None for x in cur] if kind in ("list", "flow") else []
        if rng.random() < 0.3:
            # Removal
            idx = rng.choice([0, rng.randrange(max(1, len(names))), len(names), 50])
            path = f"{base}/{idx}"
            dep = next((d for ds in deps_of(p).values() for d in ds if d.path == path), None) if rng.random() < 0.5 else None
            if dep is None:
                dep = Dependency("foo", path, DependencySection.RUN, dependency_data_from_str("whatever"), None)
            history.append(("remove", path))
            obs.data(text=text, history=history)
            ok = kind == "list" and idx < len(names)
            if p.remove_dependency(dep) is not ok:
                raise Violation(f"remove {path}: the result is {not ok}", "remove result")
            new = View(p.render())
            if not ok:
                unchanged(view, new, history, obs)
                continue
            n = view.st.line[path]
            if new.st.lines != view.st.lines[:n] + view.st.lines[n + 1 :]:
                raise Violation(f"removing {path} gives {difference(view, new)}", "remove lines")
            obs.count("removed")
            if len(names) == 1:
                obs.count("removed_last")
            changes += 1
            view = new
            check_map(p, new, base, variables, obs)
            continue
        # Addition
        spec: str
        data: Any
        r = rng.random()
        known = [d for ds in deps_of(p).values() for d in ds]
        if r < 0.25 and known:
            data = rng.choice(known).data
            spec = D.normal(dependency_data_render_as_str(data))
            obs.count("from_map")
        else:
            if r < 0.55 and [x for x in names if x]:
                spec = rng.choice([x for x in names if x])
                if not c08.is_variable(spec):
                    spec += rng.choice(["", " >=1.2", " ==3.1.0", " 1.*"])
            elif r < 0.65:
                spec = rng.choice(list("abdhinorsu") + ["build", "host", "run", "python >=3.9", "${{ nope }}-${{ nada }}", "{{ nope }} >={{ nada }}"])
            else:
                spec = D.dep_text(rng, variables, False)
            data = dependency_data_from_str(spec)
        name = D.normal(spec).strip() if c08.is_variable(spec.strip()) else c08.package_of(spec.strip())
        sel = c04.rand_sel(rng) if rng.random() < 0.4 else None
        mode = rng.choice(list(DependencyConflictMode))
        smode = rng.choice(list(SelectorConflictMode))
        idx = rng.choice([0, rng.randrange(max(1, len(names))), len(names), 50])
        path = f"{base}/{idx}"
        invalid = rng.random() < 0.1
        if invalid:
            path = rng.choice([base, base + "/-", base + "/x", base + "/0/1", "/about/home", "/requirements", "", "/", "requirements/run/0", "/requirements/nope/0", "/outputs/x/requirements/run/0", "/outputs/0/build/run/0", "/outputs/0/requirements/run", base + "/-1"])
            if path == "/requirements" and base == path:
                continue
        history.append(("add", path, spec, sel, mode.name, smode.name))
        obs.data(text=text, history=history)
        dep = Dependency("foo", path, rng.choice(list(DependencySection)), data, SelectorParser(sel, SchemaVersion.V0) if sel else None)
        dup = next((k for k, x in enumerate(names) if x == name), None)
        # What must happen
        plan: Optional[tuple[str, int]] = None
        if invalid or kind in ("no parent", "single", "flow"):
            plan = None
            if kind in ("single", "flow") and not invalid:
                obs.count("single_value" if kind == "single" else "one_line")
        elif mode == DependencyConflictMode.EXACT_POSITION:
            plan = ("replace", idx) if kind == "list" and idx < len(names) else None
        elif kind == "absent":
            plan = ("new", 0)
        elif mode != DependencyConflictMode.USE_BOTH and dup is not None:
            plan = ("replace", dup) if mode == DependencyConflictMode.REPLACE else None
            if mode == DependencyConflictMode.IGNORE:
                obs.count("ignored")
        else:
            plan = ("append", len(names))
        if (mode, smode) == (DependencyConflictMode.REPLACE, SelectorConflictMode.REPLACE) and rng.random() < 0.5:
            res = p.add_dependency(dep)
        else:
            res = p.add_dependency(dep, mode, smode)
        new = View(p.render())
        if res is not (plan is not None):
            raise Violation(f"{history[-1]}: the result is {res}; the section is {kind} {cur!r}", "add result")
        if plan is None:
            unchanged(view, new, history, obs)
            continue
        op, k = plan
        target = f"{base}/{k}"
        if target not in new.st.line:
            raise Violation(f"{history[-1]}: there is no {target}: {difference(view, new)}", "add missing")
        n = new.st.line[target]
        got = R.get_path(new.obj, target)
        if not isinstance(got, str) or got != D.normal(spec).strip():
            raise Violation(f"{history[-1]}: {target} is {got!r}", "add value")
        lines = list(new.st.lines)
        if op == "replace":
            lines[n] = view.st.lines[view.st.line[target]] if n == view.st.line[target] else "?"
        elif op == "append":
            del lines[n]
        else:
            h = new.st.line[base]
            if h != n - 1:
                raise Violation(f"{history[-1]}: {difference(view, new)}", "new section")
            del lines[h : n + 1]
        if lines != view.st.lines:
            raise Violation(f"{history[-1]} gives {difference(view, new)}", f"{op} other lines")
        # Selector
        c = new.st.comments.get(n, "")
        got_sel, rest = R.selector_of(c), c04.tail(c)
        old = view.st.comments.get(view.st.line[target], "") if op == "replace" else ""
        old_sel = R.selector_of(old)
        if rest not in ("", c04.tail(old)):
            raise Violation(f"{history[-1]}: the line has the comment {c!r}", "comment")
        if smode == SelectorConflictMode.REPLACE or old_sel is None:
            bad = (got_sel is None) is not (sel is None) or bool(sel and got_sel) and not c04.is_combination(got_sel, sel, sel, True, rng)
            if old_sel and sel is None:
                obs.count("selector_dropped")
        elif sel is None:
            bad = got_sel != old_sel
            obs.count("selector_kept")
        else:
            bad = got_sel is None or not c04.is_combination(got_sel, old_sel, sel, smode == SelectorConflictMode.AND, rng)
            obs.count("selector_combined")
        if bad:
            raise Violation(f"{history[-1]}: {old_sel} became {got_sel}", "selector")
        if sel:
            obs.count("selector_set")
        # What was covered
        obs.count({"replace": "replaced", "append": "appended", "new": "new_section"}[op])
        if mode == DependencyConflictMode.EXACT_POSITION:
            obs.count("exact")
        if mode == DependencyConflictMode.USE_BOTH and dup is not None:
            obs.count("both")
        if kind == "empty":
            obs.count("filled_empty_section")
        if c08.is_variable(spec.strip()):
            obs.count("variable_deps")
        if dup is not None and "{{" in str(cur[dup]) and "{{" not in name:
            obs.count("resolved_names")
        if dup is not None and None in cur[:dup]:
            obs.count("null_members")
        changes += 1
        view = new
        check_map(p, new, base, variables, obs)
    if p.is_modified() is not bool(changes) and changes:
        raise Violation("the recipe is not marked as modified", "modified")
    if changes >= 2:
        obs.distinct(text + repr(history))
        obs.sample({"history": [str(x) for x in history[:4]]}, 2)


def deps_of(p: Any) -> dict[str, list[Any]]:
    try:
        return p.get_all_dependencies()  # type: ignore[no-any-return]
    except (KeyError, ValueError):
        return {}


def check_map(p: Any, view: View, base: str, variables: dict[str, Any], obs: Obs) -> None:
    """The dependency map follows."""
    from conda_recipe_manager.parser.dependency import dependency_data_render_as_str

    kind, cur = view.section(base)
    if kind not in ("list", "empty"):
        return
    want = {f"{base}/{k}": D.normal(D.resolve(x, variables, False)).strip() for k, x in enumerate(cur) if x is not None}
    m = deps_of(p)
    if not m:
        return
    got = {d.path: D.normal(dependency_data_render_as_str(d.data)) for ds in m.values() for d in ds if d.path.rsplit("/", 1)[0] == base}
    if got != want:
        raise Violation(f"the dependency map has {got}, the recipe {want}", "map")


def unchanged(a: View, b: View, history: list[Any], obs: Obs) -> None:
    if a.text != b.text:
        raise Violation(f"{history[-1]} is refused but gives {difference(a, b)}", "refused but changed")
    obs.count("refused")


def difference(a: View, b: View) -> str:
    import difflib

    return repr([x for x in difflib.unified_diff(a.st.lines, b.st.lines, n=0, lineterm="") if not x.startswith(("---", "+++", "@@"))])


def flow(m: D.Model, rng: random.Random) -> str:
    """Writes one section on one line."""
    import json

    for e in m.doc.root.entries:
        if isinstance(e, R.Entry) and e.key == "requirements" and isinstance(e.value, R.Map):
            for s in e.value.entries:
                if isinstance(s, R.Entry) and isinstance(s.value, R.Seq):
                    vals = [it.value for it in s.value.items if isinstance(it, R.Sc)]
                    if all(isinstance(v, str) and "{{" not in v for v in vals):
                        s.value = R.Sc(vals, "[" + ", ".join(json.dumps(v) for v in vals) + "]")
                        return R.emit(m.doc)
    return m.text


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    return []
