"""C23: the pyproject scanner reports exactly the dependencies that the file declares."""

from __future__ import annotations

import os
import random
import tomllib
from pathlib import Path
from typing import Any

from lib.core import CONTAINMENT, Obs, Violation

PROP = "C23"
LEVEL = "exploration"
RULE = (
    "Random pyproject files (dependencies with extras, constraints, markers and URLs; optional groups; inline, dotted and multi-line tables; unrelated tables) "
    "written by a small TOML writer and re-read with tomllib; damaged, missing, unreadable, mistyped and oddly encoded files. The reported set must equal the declared one, "
    "with the text as written; everything else is a message. A case is non-trivial if at least three dependencies are declared."
)
ANCHORS = ["conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py", "conda_recipe_manager/scanner/dependency/base_dep_scanner.py"]
COUNTS = {"quick": 12000, "thorough": 400000}
REQUIRED = ["run", "optional", "markers", "no_project", "damaged", "missing", "mistyped", "not_utf8", "directories", "custom_name", "run_and_optional", "empty_groups"]
ASSUMPTIONS = ["conda's MatchSpec is a stand-in (conda is not installed).", "Specifications that MatchSpec considers equal are one dependency."]

NAMES = ["click", "requests", "PyYAML", "conda-build", "ruamel.yaml", "types_toml", "x", "jsonschema", "numpy", "a1", "zope.interface", "pytest", "tomli-w"]


def spec(rng: random.Random, obs: Obs) -> str:
    n = rng.choice(NAMES)
    r = rng.random()
    if r < 0.35:
        return n
    v = f"{rng.randint(0, 20)}.{rng.randint(0, 20)}"
    sp = rng.choice(["", " "])
    if r < 0.65:
        return n + sp + rng.choice([">=", "==", "<", "~=", "!=", "<=", ">"]) + rng.choice(["", " "]) + v
    if r < 0.8:
        return f"{n}{sp}>={v},{rng.choice(['', ' '])}<{rng.randint(21, 30)}"
    if r < 0.86:
        return f"{n}=={v}.*"
    obs.count("markers")
    return rng.choice([f"{n}; python_version < '3.8'", f'{n}>={v}; sys_platform == "win32" and extra == "x"', f"{n}[extra]", f"{n}[a,b]>={v}", f"{n} @ https://example.org/{n}.zip", f"{n} ({v})",
                       "", "  ", f"{n} >=", f"{{{{ {n} }}}}", "é", f"git+https://x/{n}.git#egg={n}", f"{n}\t>= {v}", "${{ x }}", f" {n} "])


def tstr(rng: random.Random, s: str) -> str:
    if rng.random() < 0.25 and "'" not in s and "\t" not in s:
        return "'" + s + "'"
    if rng.random() < 0.05 and "'" not in s:
        return "'''" + s + "'''"
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t") + '"'


def tlist(rng: random.Random, items: list[str]) -> str:
    q = [tstr(rng, s) for s in items]
    if rng.random() < 0.5:
        return "[" + ", ".join(q) + ("," if q and rng.random() < 0.3 else "") + "]"
    return "[\n" + "".join(f"  {x}, {rng.choice(['', '# comment [x]'])}\n" for x in q) + "]"


def key(rng: random.Random, k: str) -> str:
    return f'"{k}"' if rng.random() < 0.1 or not k.replace("-", "").replace("_", "").isalnum() or not k.isascii() else k


JUNK = [
    '[build-system]\nrequires = ["setuptools", "fakepkg"]\nbuild-backend = "setuptools.build_meta"',
    '[tool.poetry.dependencies]\npython = "^3.8"\nfakepkg = "*"',
    '[tool.project]\ndependencies = ["fakepkg"]',
    '[tool.hatch.envs.default]\ndependencies = ["fakepkg"]',
    '[dependency-groups]\ndev = ["fakepkg"]',
    '[[tool.x.y]]\na = 1',
    '[tool.setuptools.optional-dependencies]\na = ["fakepkg"]',
]


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.dependency import dependency_data_render_as_str
    from conda_recipe_manager.scanner.dependency.pyproject_dep_scanner import PyProjectDependencyScanner
    from conda_recipe_manager.types import MessageCategory

    run = [spec(rng, obs) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]
    if run and rng.random() < 0.1:
        run.append(run[0])
    groups = {g: [spec(rng, obs) for _ in range(rng.choice([0, 1, 2, 4]))] for g in rng.sample(["dev", "test", "docs", "all", "conda_build", "gui-x", "ünï", "a b", "dependencies"], rng.choice([0, 0, 1, 2, 3]))}
    if groups and run and rng.random() < 0.3:
        groups[rng.choice(list(groups))].append(rng.choice(run))
        obs.count("run_and_optional")
    if any(not g for g in groups.values()):
        obs.count("empty_groups")
    has_run = bool(run) or rng.random() < 0.5
    head = ['name = "x"', 'version = "1.0"'] + rng.sample(['requires-python = ">=3.8"', 'dynamic = ["readme"]', 'authors = [{name = "a"}]', "keywords = ['dependencies']", 'description = """\ndependencies = ["fakepkg"]\n"""'], rng.randint(0, 3))
    sections: list[str] = []
    style = rng.random()
    opt_inline = groups and rng.random() < 0.3
    if style < 0.85:
        body = list(head)
        if has_run:
            body.insert(rng.randint(0, len(body)), f"{key(rng, 'dependencies')} = {tlist(rng, run)}")
        if opt_inline:
            body += [f"optional-dependencies.{key(rng, g)} = {tlist(rng, d)}" for g, d in groups.items()]
        sections.append("[project]\n" + "\n".join(body))
        if groups and not opt_inline:
            sections.append("[project.optional-dependencies]\n" + "\n".join(f"{key(rng, g)} = {tlist(rng, d)}" for g, d in groups.items()))
        if rng.random() < 0.4:
            sections.append('[project.urls]\ndependencies = "https://example.org"')
        if rng.random() < 0.3:
            sections.append('[project.scripts]\nfakepkg = "x:main"')
        sections += rng.sample(JUNK, rng.randint(0, 3))
        first, rest = sections[0], sections[1:]
        rng.shuffle(rest)
        k = rng.randint(0, len(rest)) if not (groups and not opt_inline) else 0
        sections = rest[:k] + [first] + rest[k:]
        text = "\n\n".join(sections) + "\n"
    else:
        text = "# dotted\n" + "".join(f"project.{ln}\n" for ln in head if '"""' not in ln)
        if has_run:
            text += f"project.dependencies = {tlist(rng, run)}\n"
        for g, d in groups.items():
            text += f"project.optional-dependencies.{key(rng, g)} = {tlist(rng, d)}\n"
    # What goes wrong
    fault = rng.choice([None] * 12 + ["missing", "damaged", "no_project", "mistyped", "not_utf8", "directory", "empty"])
    name = "pyproject.toml"
    if rng.random() < 0.15:
        name = rng.choice(["other.toml", "sub/pyproject.toml", "py project.toml"])
        obs.count("custom_name")
    data = text.encode()
    want_run: set[str] = set(run) if has_run else set()
    want_opt: set[str] = {s for d in groups.values() for s in d}
    want_msg = 0
    if fault == "damaged":
        data = rng.choice([data + b"[", data + b"\nx = \n", b"]" + data, data + b'\ny = "abc\n', data + b"\x00"])
    elif fault == "no_project":
        data = b"\n".join(j.encode() for j in rng.sample(JUNK, 2))
    elif fault == "empty":
        data = rng.choice([b"", b"\n", b"# x"])
    elif fault == "not_utf8":
        data = data + b"# \xe9\xff\n"
    elif fault == "mistyped":
        k = rng.randrange(6)
        if k == 0:
            data, want_run, want_opt = b'project = "x"\n', set(), set()
        elif k == 1:
            data, want_run, want_opt = b'[project]\ndependencies = "click"\n[project.optional-dependencies]\na = ["x"]\n', set(), {"x"}
        elif k == 2:
            data, want_run, want_opt = b'[project]\ndependencies = ["click"]\noptional-dependencies = ["x"]\n', {"click"}, set()
        elif k == 3:
            data, want_run, want_opt = b'[project]\ndependencies = ["click"]\n[project.optional-dependencies]\na = 3\nb = ["y"]\n', {"click"}, {"y"}
        elif k == 4:
            data, want_run, want_opt = b"[[project]]\ndependencies = []\n", set(), set()
        else:
            data, want_run, want_opt = b'[project.dependencies]\nclick = "1"\n', set(), set()
    if fault and fault != "mistyped":
        want_run, want_opt = set(), set()
    if fault:
        want_msg = 1
        obs.count({"directory": "directories", "empty": "no_project"}.get(fault, fault))
    else:
        parsed = tomllib.loads(text)["project"]
        assert parsed.get("dependencies", []) == (run if has_run else []) and parsed.get("optional-dependencies", {}) == groups
    root = os.path.join(obs.scratch, "proj")
    path = os.path.join(root, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.remove(path)
    if name != "pyproject.toml" and rng.random() < 0.5:
        d = os.path.join(root, "pyproject.toml")
        if not os.path.isdir(d):
            Path(d).write_text('[project]\ndependencies = ["fakepkg"]\n')
    if fault == "directory":
        os.makedirs(path)
    elif fault != "missing":
        Path(path).write_bytes(data)
    obs.data(text=data.decode("latin-1"), fault=fault, name=name)
    args: list[Any] = [rng.choice([Path(root), root])]
    if name != "pyproject.toml":
        args.append(name)
    writes: list[str] = []

    def listen(event: str, a: tuple[Any, ...]) -> None:
        if event in ("subprocess.Popen", "os.system", "socket.connect", "os.remove", "os.mkdir") or (event == "open" and isinstance(a[1], str) and any(c in a[1] for c in "wax+")):
            writes.append(event)

    scanner = PyProjectDependencyScanner(*args)
    CONTAINMENT.listeners.append(listen)
    try:
        got = scanner.scan()
    finally:
        CONTAINMENT.listeners.remove(listen)
    if writes:
        raise Violation(f"scanning had side effects: {writes}", "side effects")
    by: dict[str, list[str]] = {}
    for d in got:
        by.setdefault(d.type.name, []).append(dependency_data_render_as_str(d.data))
    for sec, want in (("RUN", want_run), ("RUN_CONSTRAINTS", want_opt)):
        have = by.pop(sec, [])
        if not set(have) <= want:
            raise Violation(f"{sec}: reported {sorted(set(have) - want)}, which is not declared there ({sorted(want)})", "unexpected")
        if len(have) != len(set(have)):
            raise Violation(f"{sec}: reported more than once: {have}", "duplicates")
        equal = {canon(s) for s in have}
        missing = {s for s in want if canon(s) not in equal}
        if missing:
            raise Violation(f"{sec}: {sorted(missing)} is declared but not reported", "missing")
        if len({canon(s) for s in want}) != len(have):
            raise Violation(f"{sec}: {sorted(want)} reported as {sorted(have)}", "number")
    if by:
        raise Violation(f"dependencies in other sections: {by}", "section")
    msgs = {c: scanner.get_message_table().get_messages(c) for c in MessageCategory}
    n = sum(len(m) for m in msgs.values())
    if n != want_msg:
        raise Violation(f"{n} messages, expected {want_msg} (fault: {fault}): {msgs}", "messages")
    if want_msg and os.path.basename(name) not in str(msgs):
        raise Violation(f"the message does not name the file: {msgs}", "message text")
    if fault in ("missing", "damaged", "not_utf8", "directory") and not msgs[MessageCategory.EXCEPTION]:
        raise Violation(f"a file that can't be read is not an exception: {msgs}", "message category")
    if fault in ("no_project", "empty", "mistyped") and not msgs[MessageCategory.ERROR]:
        raise Violation(f"an invalid file is not an error: {msgs}", "message category")
    if fault is None:
        obs.count("run", len(want_run))
        obs.count("optional", len(want_opt))
        if len(want_run | want_opt) >= 3:
            obs.distinct(text)
            obs.sample({"run": sorted(want_run)[:4], "optional": sorted(want_opt)[:4]}, 2)
        if rng.random() < 0.05 and scanner.scan() != got:
            raise Violation("a second scan gives another result", "rescan")


def canon(s: str) -> Any:
    """Equal for specifications that the (stand-in) MatchSpec considers equal, the text itself otherwise."""
    from conda.models.match_spec import MatchSpec

    if "{{" in s:
        return s
    try:
        return MatchSpec(s)
    except ValueError:
        return s
