"""C08: the dependency map holds every dependency of a recipe, once, where it is written."""

from __future__ import annotations

import random
from typing import Any, Callable

from lib import deps as D
from lib import recipes as R
from lib.core import Obs, Skip, Violation

PROP = "C08"
LEVEL = "exploration"
RULE = (
    "Generated V0 and V1 recipes (one or several outputs; sections in any order, absent, empty or with a single dependency; comments, selectors, V1 conditions; versions, channels, Jinja expressions and "
    "invalid text as dependencies) whose every dependency is known to the generator. The map returned must hold exactly those, with section, path, text, selector and owner. "
    "A case is non-trivial if the recipe has at least three dependencies."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_reader_deps.py", "conda_recipe_manager/parser/dependency.py"]
COUNTS = {"quick": 4000, "thorough": 120000}
REQUIRED = ["null_members", "dependencies", "with_selector", "multi_output", "v1", "v1_conditions", "from_root", "variables_resolved", "not_a_spec", "names", "duplicate_names", "missing_names", "single_value_sections"]
ASSUMPTIONS = ["conda's MatchSpec is a stand-in that follows conda's own parsing steps (conda is not installed)."]


def read(text: str) -> Any:
    from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps

    return RecipeReaderDeps(text)


def case(i: int, rng: random.Random, obs: Obs) -> None:
    m = D.make(rng)
    if len({p.name for p in m.packages}) != len(m.packages):
        raise Skip()
    obs.data(text=m.text)
    r = read(m.text)
    before = r.render()
    check(r, m, obs)
    if r.render() != before:
        raise Violation("querying dependencies changed the recipe", "mutated")
    if rng.random() < 0.1:
        check(r, m, obs)
    if rng.random() < 0.1:
        names(m, rng, obs)
    n = sum(len(p.deps) for p in m.packages)
    if n >= 3:
        obs.distinct(m.text)
        obs.sample(m.text[:400], 1)


def check(r: Any, m: D.Model, obs: Obs) -> None:
    from conda_recipe_manager.parser.dependency import DependencyVariable, dependency_data_render_as_str
    from conda_recipe_manager.parser.enums import SchemaVersion
    from conda_recipe_manager.parser.selector_parser import SelectorParser

    want_names = {p.name: p.path for p in m.packages}
    got_names = r.get_package_names_to_path()
    if got_names != want_names or list(got_names) != list(want_names):
        raise Violation(f"packages {got_names}, expected {want_names}", "names")
    obs.count("names", len(want_names))
    if r.get_package_paths() != [p.path for p in m.packages] or r.is_multi_output() != m.multi:
        raise Violation(f"package paths {r.get_package_paths()}, multi-output: {r.is_multi_output()}", "package paths")
    if r.get_recipe_name() != m.root_name:
        raise Violation(f"the recipe's name is {r.get_recipe_name()!r}, expected {m.root_name!r}", "recipe name")
    obs.count("multi_output" if m.multi else "single_output")
    if m.v1:
        obs.count("v1")
    got = r.get_all_dependencies()
    want = m.expected()
    if list(got) != list(want):
        raise Violation(f"packages in the map {list(got)}, expected {list(want)}", "map keys")
    for pkg, wl in want.items():
        gl = got[pkg]
        gp = [d.path for d in gl]
        wp = [d.path for _, d in wl]
        if sorted(gp) != sorted(wp):
            extra = sorted(set(gp) - set(wp)) or [p for p in gp if gp.count(p) > 1]
            raise Violation(f"{pkg}: dependencies at {gp}, expected at {wp} (missing {sorted(set(wp) - set(gp))}, extra {extra})", "missing" if set(wp) - set(gp) else "extra")
        # Within a section the order is that of the recipe
        for sec in {p.rsplit("/", 1)[0] for p in wp}:
            if [p for p in gp if p.rsplit("/", 1)[0] == sec] != [p for p in wp if p.rsplit("/", 1)[0] == sec]:
                raise Violation(f"{pkg}: {sec} is in the order {gp}", "order")
        by = {d.path: d for d in gl}
        for owner, w in wl:
            d = by[w.path]
            obs.count("dependencies")
            if d.required_by != owner:
                raise Violation(f"{w.path} is required by {d.required_by!r}, expected {owner!r}", "owner")
            if d.type.name != w.section:
                raise Violation(f"{w.path} is a {d.type.name} dependency, expected {w.section}", "section")
            text = dependency_data_render_as_str(d.data)
            if D.normal(text) != D.normal(w.text.strip()):
                raise Violation(f"{w.path} is {text!r}, written {w.text!r}", "text")
            name = w.text.strip()
            if isinstance(d.data, DependencyVariable) != is_variable(name):
                raise Violation(f"{w.path}: {text!r} is a {type(d.data).__name__}", "kind")
            if isinstance(d.data, DependencyVariable):
                obs.count("not_a_spec")
            elif str(d.data.name) != package_of(name):
                raise Violation(f"{w.path}: {text!r} names the package {d.data.name!r}", "package name")
            if w.selector is None:
                if d.selector is not None:
                    raise Violation(f"{w.path} has the selector {d.selector}, none is written", "selector")
            else:
                v = SchemaVersion.V1 if m.v1 else SchemaVersion.V0
                e = SelectorParser(w.selector, v)
                if d.selector is None:
                    raise Violation(f"{w.path} lost its selector {w.selector}", "selector")
                ep = e.get_selected_platforms()
                if w.negated:
                    from conda_recipe_manager.parser.platform_types import ALL_PLATFORMS

                    ep = ALL_PLATFORMS - ep
                if d.selector.get_selected_platforms() != ep or (not w.negated and d.selector != e):
                    raise Violation(f"{w.path} has the selector {d.selector.render()}, written {w.selector} (negated: {w.negated})", "selector")
                obs.count("with_selector")
                if m.v1:
                    obs.count("v1_conditions")
            if w.path.startswith("/requirements") and owner != m.packages[0].name:
                obs.count("from_root")
            if w.path.rsplit("/", 1)[1] in D.SECTIONS:
                obs.count("single_value_sections")
    obs.count("variables_resolved", sum(str(m.doc.variables["name"]) in d.text or str(m.doc.variables["version"]) in d.text for p in m.packages for d in p.deps))
    # Paths of dependency lines (the four sections of both formats)
    four = {"build", "host", "run", "run_constraints" if m.v1 else "run_constrained"}
    want_paths = set()
    for p in m.packages:
        base = "/requirements/" if p.path == "/" else f"{p.path}/requirements/"
        for d in p.deps:
            parts = d.path[len(base) :].split("/")
            if parts[0] in four:
                want_paths.add(base + "/".join(parts[:2]))
    # (whether a member without a value counts as a line is left open)
    nulls = {q for p in m.packages for q in p.nulls}
    obs.count("null_members", len(nulls))
    gotp = [q for q in r.get_dependency_paths() if q not in nulls]
    if len(gotp) != len(set(gotp)) or set(gotp) != want_paths:
        raise Violation(f"dependency paths {sorted(gotp)}, expected {sorted(want_paths)}", "dependency paths")


def is_variable(text: str) -> bool:
    from conda.models.match_spec import MatchSpec

    if "{{" in text:
        return True
    try:
        MatchSpec(text)
    except ValueError:
        return True
    return False


def package_of(text: str) -> str:
    import re

    t = text.split("::")[-1]
    return re.split(r"[ =<>!~\[(]", t)[0].lower()


def names(m: D.Model, rng: random.Random, obs: Obs) -> None:
    """Packages without a name, or with one that is taken, are documented errors."""
    doc = m.doc
    if m.multi and rng.random() < 0.6:
        outs = [o for o in doc.root.get("outputs").items if isinstance(o, R.Map)]
        o = rng.choice(outs)
        e = (o.get("package") if m.v1 else o).entry("name")
        e.value = R.Sc(m.root_name, m.root_name)
        e.comment = ""
        want: type[Exception] = ValueError
        obs.count("duplicate_names")
    else:
        key = "recipe" if m.v1 and m.multi else "package"
        sec = doc.root.get(key)
        sec.entries = [e for e in sec.entries if e.key != "name"]
        want = KeyError
        obs.count("missing_names")
    text = R.emit(doc)
    obs.data(text=text)
    r = read(text)
    for call in (r.get_package_names_to_path, r.get_all_dependencies):
        try:
            got = call()
        except want:
            continue
        raise Violation(f"{call.__name__}() of a recipe with a {'duplicate' if want is ValueError else 'missing'} name returned {got!r}", "names not checked")


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    def variables(o: Obs) -> None:
        from conda_recipe_manager.parser.dependency import DependencyVariable

        a, b = DependencyVariable("x"), DependencyVariable("x")
        if a != b or hash(a) != hash(b) or a == DependencyVariable("y") or a == "x":
            raise Violation("equality of unresolved dependencies", "equality")

    def sections(o: Obs) -> None:
        from conda_recipe_manager.parser.dependency import DependencySection, dependency_section_to_str, str_to_dependency_section
        from conda_recipe_manager.parser.enums import SchemaVersion

        for s in DependencySection:
            for v in SchemaVersion:
                t = dependency_section_to_str(s, v)
                for form in (t, t.upper(), f" {t} "):
                    if str_to_dependency_section(form) != s:
                        raise Violation(f"{form!r} is read as {str_to_dependency_section(form)}, written for {s}", "section names")
        for t in ("", "foo", "requirements", "run_", "host2"):
            if str_to_dependency_section(t) is not None:
                raise Violation(f"{t!r} is read as a section", "section names")

    return [("variables", variables), ("sections", sections)]
