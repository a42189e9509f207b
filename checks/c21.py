"""C21: the dependency graph holds exactly what the recipes say, whatever the number of workers."""

from __future__ import annotations

import json
import os
import pickle
import random
import shutil
import time
from pathlib import Path
from typing import Any, Optional

from lib import deps as D
from lib import recipes as R
from lib.core import CONTAINMENT, Obs, Violation

PROP = "C21"
LEVEL = "exploration"
RULE = (
    "Random directory trees of generated recipes (single and multi-output, V0 and V1) whose dependencies point at each other, with duplicates, identical copies, broken, unreadable and unrelated files, read with different "
    "numbers of workers and injected delays. Nodes and edges of the graphs handed to the (recorded) plotting call must be those of the generating models, for the whole graph and for every package's dependencies and dependants; "
    "statistics must account for every file. A case is non-trivial if the graphs have at least three edges."
)
ANCHORS = ["conda_recipe_manager/grapher/recipe_graph.py", "conda_recipe_manager/grapher/recipe_graph_from_disk.py", "conda_recipe_manager/grapher/types.py", "conda_recipe_manager/commands/graph.py"]
COUNTS = {"quick": 700, "thorough": 12000}
REQUIRED = ["edges_build", "edges_test", "packages", "duplicates", "failed_to_parse", "failed_dependencies", "identical_copies", "sub_graphs", "same_with_other_workers", "cli_runs", "empty", "v1",
            "isolated_packages", "from_cache", "unrelated_files", "cycles"]
ASSUMPTIONS = ["conda's MatchSpec is a stand-in (conda is not installed).", "Drawing is replaced by a recorder (graphviz is not installed).", "Recipes with the same text are one recipe."]

_drawn: list[Any] = []


def install() -> None:
    import matplotlib.pyplot as plt
    import networkx as nx
    from networkx.drawing import nx_agraph

    if getattr(nx, "_verif", False):
        return
    nx._verif = True
    nx_agraph.graphviz_layout = lambda g, *a, **k: {n: (0, 0) for n in g}
    nx.draw = lambda g, *a, **k: _drawn.append(g.copy())
    plt.show = lambda *a, **k: None
    plt.figure = lambda *a, **k: None
    plt.axis = lambda *a, **k: None
    plt.title = lambda *a, **k: None


def draw(graph: Any, *args: Any) -> Any:
    _drawn.clear()
    graph.plot(*args)
    if len(_drawn) != 1:
        raise Violation(f"plot() draws {len(_drawn)} graphs", "drawing")
    return _drawn[0]


class Rec:
    def __init__(self, model: Optional[D.Model], data: bytes, kind: str) -> None:
        self.model, self.data, self.kind = model, data, kind
        self.packages: dict[str, tuple[frozenset[str], frozenset[str]]] = {}
        if kind == "good" and model is not None:
            for p, deps in model.expected().items():
                b = frozenset(name(d.text) for _, d in deps if d.section in ("BUILD", "HOST"))
                t = frozenset(name(d.text) for _, d in deps if d.section in ("RUN", "TESTS"))
                self.packages[p] = (b, t)


def name(text: str) -> str:
    from conda.models.match_spec import MatchSpec

    if "{{" in text:
        return D.normal(text.strip())
    try:
        return MatchSpec(text.strip()).name
    except ValueError:
        return text.strip()


def recipe(rng: random.Random, pool: list[str], obs: Obs) -> Rec:
    m = D.make(rng, com=0.1, root_name=rng.choice(pool) if rng.random() < 0.8 else None)
    # Dependencies on packages of other recipes
    for e in walk_reqs(m.doc.root):
        if rng.random() < 0.5:
            new = rng.choice(pool)
            for p in m.packages:
                for d in p.deps:
                    if d.path == e[0]:
                        c = e[1].comment
                        e[1].value = e[1].text = new + rng.choice(["", " >=1.0"])
                        e[1].comment = c
                        d.text = e[1].value
    text = R.emit(m.doc)
    if len({p.name for p in m.packages}) != len(m.packages):
        obs.count("failed_dependencies")
        return Rec(m, text.encode(), "names")
    if rng.random() < 0.06:
        key = "recipe" if m.v1 and m.multi else "package"
        sec = m.doc.root.get(key)
        sec.entries = [e for e in sec.entries if e.key != "name"]
        obs.count("failed_dependencies")
        return Rec(m, R.emit(m.doc).encode(), "names")
    if m.v1:
        obs.count("v1")
    return Rec(m, text.encode(), "good")


def walk_reqs(root: R.Map) -> list[Any]:
    return [(p, v) for p, v, _ in R.walk(root) if isinstance(v, R.Sc) and "/requirements/" in p and not p.endswith("/if") and p.rsplit("/", 1)[1].isdecimal() and "{{" not in v.text]


def case(i: int, rng: random.Random, obs: Obs) -> None:
    install()
    from conda_recipe_manager.grapher.recipe_graph import RecipeGraph
    from conda_recipe_manager.grapher.recipe_graph_from_disk import RecipeGraphFromDisk
    from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps

    root = os.path.join(obs.scratch, "tree")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    pool = [R.word(rng) for _ in range(rng.choice([3, 6, 12]))]
    recs: list[tuple[str, Rec]] = []
    n = rng.choice([0, 1, 2, 3, 5, 8, 12])
    for k in range(n):
        d = rng.choice([f"r{k}", f"r{k}/recipe", f"group/r{k}", f"a b/{k}", "" if k == 0 else f"r{k}/x/y"])
        rec = recipe(rng, pool, obs)
        r = rng.random()
        if r < 0.06:
            rec = Rec(None, rng.choice([b"\xff\xfe" + rec.data, rec.data + b"# \xe9\n"]), "unreadable")
        elif r < 0.1:
            rec = Rec(None, b"", "directory")
        elif r < 0.16 and recs and recs[0][1].kind == "good":
            rec = rng.choice([x for _, x in recs if x.kind == "good"])
            obs.count("identical_copies")
        fn = "recipe.yaml" if rec.model is not None and rec.model.v1 else rng.choice(["meta.yaml", "meta.yaml", "recipe.yaml"])
        path = os.path.join(root, d, fn)
        if os.path.exists(path):
            continue
        os.makedirs(path if rec.kind == "directory" else os.path.dirname(path), exist_ok=True)
        if rec.kind != "directory":
            Path(path).write_bytes(rec.data)
        recs.append((path, rec))
    for _ in range(rng.choice([0, 0, 1, 3])):
        fn = os.path.join(root, rng.choice(["", "z"]), rng.choice(["conda_build_config.yaml", "meta.yml", "meta.yaml.bak", "README.md", "xmeta.yaml", "Meta.yaml", "recipe.yaml.in"]))
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        Path(fn).write_bytes(recipe(rng, ["unrelated"], Obs()).data)
        obs.count("unrelated_files")
    obs.data(tree={os.path.relpath(p, root): r.data.decode("latin-1") for p, r in recs})
    workers = rng.choice([1, 2, 3, 4, 8])
    delays = rng.random() < 0.5

    def listen(event: str, args: tuple[Any, ...]) -> None:
        if event == "open" and isinstance(args[0], (str, os.PathLike)) and os.fspath(args[0]).endswith("e.yaml" if i % 2 else "a.yaml"):
            time.sleep((hash((os.fspath(args[0]), i)) % 5) / 1000)

    if delays:
        CONTAINMENT.listeners.append(listen)
    before = {str(p): p.read_bytes() for p in Path(root).rglob("*") if p.is_file()}
    try:
        g = RecipeGraphFromDisk(rng.choice([root, Path(root)]), cpu_count=workers)
    finally:
        if delays:
            CONTAINMENT.listeners.remove(listen)
    if {str(p): p.read_bytes() for p in Path(root).rglob("*") if p.is_file()} != before:
        raise Violation("building the graph changed the recipes", "files changed")
    obs.seen("workers", str(workers))
    state = check(g, recs, obs)
    if rng.random() < 0.3:
        g2 = RecipeGraphFromDisk(root, cpu_count=1 if workers > 1 else 4)
        s2 = check(g2, recs, Obs())
        if not g.get_package_stats().package_name_duplicates and s2 != state:
            raise Violation(f"with another number of workers the graph differs: {s2} / {state}", "workers")
        obs.count("same_with_other_workers")
    if rng.random() < 0.2 and all(r.kind == "good" for _, r in recs):
        cache = {}
        for _, r in recs:
            p = RecipeReaderDeps(r.data.decode())
            cache[p.calc_sha256()] = p
        failed = set(rng.sample(["x/meta.yaml", "y"], rng.randint(0, 2)))
        g3 = pickle.loads(pickle.dumps(RecipeGraph(cache, set(failed))))
        if not g.get_package_stats().package_name_duplicates and state_of(g3) != state:
            raise Violation("a graph built from a cache differs from the one read from disk", "cache")
        st = g3.get_package_stats()
        if st.recipes_failed_to_parse != failed or st.total_recipes != len(cache) + len(failed):
            raise Violation(f"statistics {st}", "stats")
        obs.count("from_cache")
    if rng.random() < 0.12:
        cli(root, g, recs, rng, obs)
    edges = sum(len(x) for x in state[:2])
    if edges >= 3:
        obs.distinct(state)
        obs.sample({"recipes": len(recs), "workers": workers, "edges": edges}, 2)


def state_of(g: Any) -> Any:
    from conda_recipe_manager.grapher.types import GraphType

    return (sorted(draw(g, GraphType.BUILD).edges), sorted(draw(g, GraphType.TEST).edges))


def norm_edges(graph: Any) -> dict[str, set[str]]:
    out: dict[str, set[str]] = {}
    for a, b in graph.edges:
        out.setdefault(a, set()).add(D.normal(b))
    return out


def check(g: Any, recs: list[tuple[str, Rec]], obs: Obs) -> Any:
    from conda_recipe_manager.grapher.types import GraphDirection, GraphType

    good = {r.data: r for _, r in recs if r.kind == "good"}
    named = {r.data: r for _, r in recs if r.kind == "names"}
    failed = {Path(p).as_posix() for p, r in recs if r.kind in ("unreadable", "directory")}
    owners: dict[str, list[Rec]] = {}
    for r in good.values():
        for p in r.packages:
            owners.setdefault(p, []).append(r)
    st = g.get_package_stats()
    if st.recipes_failed_to_parse != failed:
        raise Violation(f"failed to parse: {sorted(st.recipes_failed_to_parse)}, expected {sorted(failed)}", "failed")
    obs.count("failed_to_parse", len(failed))
    if st.total_parsed_recipes != len(good) + len(named) or st.total_recipes != len(good) + len(named) + len(failed) or st.total_packages != len(owners):
        raise Violation(f"statistics {st}, expected {len(good) + len(named)} parsed, {len(failed)} failed, {len(owners)} packages", "totals")
    dup = {p for p, rs in owners.items() if len(rs) > 1}
    if st.package_name_duplicates != dup:
        raise Violation(f"duplicates {sorted(st.package_name_duplicates)}, expected {sorted(dup)}", "duplicates")
    obs.count("duplicates", len(dup))
    if len(st.recipes_failed_to_parse_dependencies) != len(named) or any(v != ["Unknown"] for v in st.recipes_failed_to_parse_dependencies.values()):
        raise Violation(f"recipes without dependencies {st.recipes_failed_to_parse_dependencies}, expected {len(named)}", "failed dependencies")
    if bool(g) != bool(good or named):
        raise Violation(f"the graph is {bool(g)} with {len(good) + len(named)} recipes", "truth")
    if not good:
        obs.count("empty")
    for p in list(owners) + ["no-such-package", ""]:
        if g.contains_package_name(p) != (p in owners):
            raise Violation(f"contains_package_name({p!r}) is {g.contains_package_name(p)}", "contains")
    obs.count("packages", len(owners))
    states: list[Any] = []
    first: dict[str, set[int]] = {}
    for k, gt in enumerate((GraphType.BUILD, GraphType.TEST)):
        full = draw(g, gt)
        have = norm_edges(full)
        if not set(have) <= set(owners):
            raise Violation(f"{gt} graph: edges of {sorted(set(have) - set(owners))}, which no recipe builds", "edges of unknown packages")
        for p, rs in owners.items():
            options = [set(r.packages[p][k]) for r in rs]
            if have.get(p, set()) not in options:
                raise Violation(f"{gt} graph: {p} needs {sorted(have.get(p, set()))}, its recipe says {sorted(options[0])}" + (f" (or {len(rs) - 1} others)" if len(rs) > 1 else ""), f"{gt} edges")
            which = {j for j, o in enumerate(options) if o == have.get(p, set())}
            # The same recipe of several must be behind both graphs
            first[p] = which if p not in first else first[p] & which
            if not first[p]:
                raise Violation(f"{p}: build and test dependencies are those of different recipes", "mixed recipes")
            if p not in full:
                raise Violation(f"{gt} graph: the package {p} has no node", "node")
            if not options[0]:
                obs.count("isolated_packages")
        nodes = set(map(D.normal, full.nodes))
        want_nodes = set(owners) | {b for s in have.values() for b in s}
        if nodes != want_nodes:
            raise Violation(f"{gt} graph: nodes {sorted(nodes ^ want_nodes)} differ", "nodes")
        obs.count(f"edges_{gt.value}", full.number_of_edges())
        states.append(sorted(full.edges))
        # Sub-graphs: what a package (transitively) needs, and what needs it
        for p in sorted(owners)[:4]:
            for direction in GraphDirection:
                sub = draw(g, gt, direction, p)
                adj = have if direction == GraphDirection.DEPENDS_ON else inverse(have)
                reach = {p}
                todo = [p]
                while todo:
                    for q in adj.get(todo.pop(), ()):
                        if q not in reach:
                            reach.add(q)
                            todo.append(q)
                        elif q == p:
                            obs.count("cycles")
                if set(map(D.normal, sub.nodes)) != reach:
                    raise Violation(f"{gt} graph of {p}, {direction}: {sorted(sub.nodes)}, expected {sorted(reach)}", "sub-graph")
                if any(D.normal(b) not in adj.get(D.normal(a), ()) for a, b in sub.edges):
                    raise Violation(f"{gt} graph of {p}, {direction}: edges {list(sub.edges)}", "sub-graph edges")
                obs.count("sub_graphs")
    return tuple(states)


def inverse(adj: dict[str, set[str]]) -> dict[str, set[str]]:
    out: dict[str, set[str]] = {}
    for a, bs in adj.items():
        for b in bs:
            out.setdefault(b, set()).add(a)
    return out


def cli(root: str, g: Any, recs: list[tuple[str, Rec]], rng: random.Random, obs: Obs) -> None:
    """The interactive shell."""
    from click.testing import CliRunner
    from conda_recipe_manager.commands.graph import graph

    good = sorted({p for _, r in recs if r.kind == "good" for p in r.packages if p == p.lower() and " " not in p})
    lines = ["help", "stats", "nonsense", "", "plot foo all", "plot build sideways x", "plot build depends no-such-package"]
    plots = []
    for p in good[:3]:
        lines.append(f"plot {rng.choice(['build', 'test'])} {rng.choice(['depends', 'needed-by'])} {p}")
        plots.append(p)
    if good:
        lines.append("plot test all")
    _drawn.clear()
    res = CliRunner().invoke(graph, [root], input="\n".join(lines + [rng.choice(["exit", "q", "quit", "esc"])]) + "\n")
    obs.count("cli_runs")
    if not any(r.kind in ("good", "names") for _, r in recs):
        if res.exit_code != 2:
            raise Violation(f"graph without recipes ends with {res.exit_code}: {res.output[-300:]}", "cli: empty")
        return
    if res.exit_code != 0 or (res.exception is not None and not isinstance(res.exception, SystemExit)):
        raise Violation(f"graph ends with {res.exit_code} ({res.exception!r}): {res.output[-300:]}", "cli: exit")
    if len(_drawn) != len(plots) + (1 if good else 0):
        raise Violation(f"{len(_drawn)} graphs drawn", "cli: plots")
    st = g.get_package_stats()
    for what, bad, total in (("Failed to parse {} out of {} recipe files ({:.2f}% success).", len(st.recipes_failed_to_parse), st.total_recipes),
                             ("Failed to parse the dependencies from {} out of {} recipe files ({:.2f}% success).", len(st.recipes_failed_to_parse_dependencies), st.total_parsed_recipes)):
        text = what.format(bad, total, (1 - bad / total) * 100)
        if text not in res.output:
            raise Violation(f"{text!r} is not printed: {res.output[:400]}", "cli: totals")
    stats = json.loads(res.output[res.output.index("\n> {") + 3 : res.output.index("\n}") + 2])
    if stats["total_recipes"] != st.total_recipes or stats["total_packages"] != st.total_packages or stats["recipes_failed_to_parse"] != sorted(st.recipes_failed_to_parse) or stats["package_name_duplicates"] != sorted(
            st.package_name_duplicates):
        raise Violation(f"the statistics printed are {stats}", "cli: stats")
