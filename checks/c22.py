"""C22: the Python scanner reports exactly the packages that a project's modules import."""

from __future__ import annotations

import os
import random
import shutil
import sys
from pathlib import Path
from typing import Any, Optional

from lib.core import CONTAINMENT, Obs, Violation

PROP = "C22"
LEVEL = "exploration"
RULE = (
    "Random source trees (nested packages, scripts, test modules, symbolic links, odd encodings, broken files) whose import statements "
    "are written by the generator in every syntactic form and nesting, next to text that only looks like an import. The reported set must "
    "equal the generator's; an audit monitor watches that scanning neither imports, executes, starts nor writes anything. "
    "A case is non-trivial if at least three packages are imported."
)
ANCHORS = ["conda_recipe_manager/scanner/dependency/py_dep_scanner.py", "conda_recipe_manager/scanner/dependency/base_dep_scanner.py"]
COUNTS = {"quick": 9000, "thorough": 250000}
REQUIRED = ["imports", "from_imports", "nested_statements", "relative", "own_modules", "stdlib", "renamed", "test_only", "run_and_test", "broken_files", "lookalikes",
            "encodings", "rescans", "bare_relative", "deep_files", "namesakes"]
ASSUMPTIONS = [
    "A project's own modules are the ones at the top of the scanned directory; a test file is one called test_*.py or *_test.py.",
    "conda's MatchSpec is a stand-in (conda is not installed).",
]

RENAMED = {"git": "gitpython", "yaml": "pyyaml", "PIL": "pillow", "sklearn": "scikit-learn", "tables": "pytables", "cv": "py-opencv", "cv2": "py-opencv", "OpenGL": "pyopengl"}
THIRD = ["numpy", "requests", "pandas", "click", "networkx", "attr", "_cffi_backend", "zope", "google", "six", "toml_w", "x", "Crypto", "ruamel", "py", "setuptools", "pkg_resources",
         "pytest", "test_utils_ext", "jsonschema", "osx", "sysx", "typing_extensions", "distutils2", "re2", "matplotlib"]
STD = ["os", "sys", "json", "re", "os.path", "collections.abc", "typing", "xml.etree.ElementTree", "unittest", "asyncio", "tomllib", "__future__", "concurrent.futures", "ast", "email.mime.text"]


class Gen:
    def __init__(self, rng: random.Random, obs: Obs) -> None:
        self.rng = rng
        self.obs = obs
        self.own: list[str] = []

    def target(self, deps: set[str]) -> str:
        rng = self.rng
        r = rng.random()
        if r < 0.42:
            name = rng.choice(THIRD)
        elif r < 0.6:
            name = rng.choice(list(RENAMED))
            self.obs.count("renamed")
        elif r < 0.8 or not self.own:
            self.obs.count("stdlib")
            return rng.choice(STD)
        else:
            self.obs.count("own_modules")
            return rng.choice(self.own) + rng.choice(["", ".sub", ".sub.deep"])
        deps.add(RENAMED.get(name, name).lower())
        return name + rng.choice(["", "", "", ".sub", ".sub.mod", ".os", ".yaml"])

    def statement(self, deps: set[str], top: bool) -> str:
        rng, obs = self.rng, self.obs
        r = rng.random()
        if r < 0.4:
            obs.count("imports")
            return "import " + rng.choice([", ", ",", " , \\\n    "]).join(
                self.target(deps) + (f" as n{rng.randint(0, 9)}" if rng.random() < 0.3 else "") for _ in range(rng.choice([1, 1, 2, 3])))
        if r < 0.75:
            obs.count("from_imports")
            names = rng.choice(["a", "a, b", "a as b", "(a,\n    b as c,\n)", "(yaml, numpy)", "git", "*" if top else "a"])
            return f"from {self.target(deps)} import {names}"
        if r < 0.85:
            obs.count("relative")
            return rng.choice(["from .numpy import a", "from ..yaml.b import c", "from .. .x import y" if False else "from ...pkg import z", "from .unknown import q"])
        if r < 0.9:
            obs.count("bare_relative")
            return rng.choice(["from . import numpy", "from .. import git, lib", "from . import yaml as y"])
        obs.count("lookalikes")
        return rng.choice([
            "# import fakepkg", "x = 'import fakepkg'", '"""\nimport fakepkg\nfrom fakepkg import a\n"""', "s = f'import fakepkg {1}'", "eval('__import__(\"fakepkg\")')" if False else "t = ('from fakepkg'\n     ' import b')",
            "imports = fakepkg = 1", "importfakepkg = 2", "def import_fakepkg():\n    pass",
        ])

    def block(self, deps: set[str], depth: int, top: bool = True) -> list[str]:
        rng = self.rng
        out: list[str] = []
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.55 or depth > 3:
                out += self.statement(deps, top).split("\n")
                continue
            self.obs.count("nested_statements")
            kind = rng.randrange(9)
            body = [] if kind == 6 else self.block(deps, depth + 1, top and kind in (1, 2, 3))
            if all(ln.startswith(("#", '"""')) or "fakepkg" in ln for ln in body):
                body = [*body, "pass"]
            ind = ["    " + ln if ln else ln for ln in body]
            if kind == 0:
                out += [*rng.choice([["def f():"], ["async def g(a, *b):"], ["@property", "def h(self):"]]), *ind]
            elif kind == 1:
                out += ["try:", *ind, "except ImportError:", *["    " + ln for ln in [*self.block(deps, depth + 1, top), "pass"]]]
            elif kind == 2:
                out += [rng.choice(["if TYPE_CHECKING:", "if sys.version_info > (3, 8):", "if False:"]), *ind]
            elif kind == 3:
                out += [rng.choice(["while True:", "for i in x:", "with a as b:"]), *ind]
            elif kind == 4:
                out += [rng.choice(["class A:", "class B(C, metaclass=D):"]), *ind]
            elif kind == 5:
                out += ["match x:", "    case 1:", *["    " + ln for ln in ind], "    case _:", "        pass"]
            elif kind == 6:
                s = self.statement(deps, top)
                out += ([f"a = 1; {s}; b = 2"] if "\n" not in s and "#" not in s and not s.startswith("def") else s.split("\n"))
            elif kind == 7:
                out += ["try:", "    pass", "finally:", *ind]
            else:
                out += ["if a:", "    pass", "elif b:", *ind, "else:", "    pass"]
        return out


def encode(rng: random.Random, lines: list[str], obs: Obs) -> bytes:
    r = rng.random()
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    text = nl.join(lines) + rng.choice([nl, "", nl * 3])
    if r < 0.75:
        return text.encode()
    obs.count("encodings")
    if r < 0.82:
        return b"\xef\xbb\xbf" + text.encode()
    if r < 0.9:
        return f"# -*- coding: latin-1 -*-{nl}c = 'é'{nl}{text}".encode("latin-1")
    if r < 0.95:
        return f"#!/usr/bin/env python{nl}# vim: set fileencoding=cp1252 :{nl}c = '\u20ac'{nl}{text}".encode("cp1252")
    return f"c = '日本 é'{nl}{text}".encode()


def broken(rng: random.Random) -> Optional[bytes]:
    return rng.choice([b"import fakepkg\ndef (:\n", b"import fakepkg\nx = '\xff\xfe'\n", b"import fakepkg\n\x00\n", b"print 'import'\nimport fakepkg\n", b"import fakepkg\n  if x:\n y\n",
                       b"# coding: no-such-codec\nimport fakepkg\n", b"import fakepkg\nfrom import a\n", b"import fakepkg\n" + b"(" * 300, None])


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.scanner.dependency.py_dep_scanner import PythonDependencyScanner
    from conda_recipe_manager.parser.dependency import DependencySection
    from conda_recipe_manager.types import MessageCategory

    root = os.path.join(obs.scratch, "proj")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    g = Gen(rng, obs)
    # The project's own modules
    packages = rng.sample(["mypkg", "numpyish", "yaml_local", "core", "Lib", "git_local"], rng.randint(0, 3))
    modules = rng.sample(["setup_mod", "helper", "conf", "toolbox", "test_local"], rng.randint(0, 3))
    shadow = rng.random() < 0.1
    if shadow:
        modules.append(rng.choice(["yaml", "requests", "numpy", "git"]))
    g.own = packages + modules
    own = set(g.own)
    dirs = [""]
    for p in packages:
        dirs.append(p)
        for s in rng.sample(["sub", "deep", "tests", "test_data", "a.b", "numpy", ".hidden"], rng.randint(0, 2)):
            dirs.append(f"{p}/{s}")
            if rng.random() < 0.5:
                dirs.append(f"{p}/{s}/more")
    if rng.random() < 0.5:
        dirs.append(rng.choice(["tests", "scripts-x", "docs", ".github", ".hidden.d"]))
    for d in dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    files: dict[str, set[str]] = {}
    bad: set[str] = set()
    todo = [f"{p}/__init__.py" for p in packages] + [f"{m}.py" for m in modules]
    todo += [f"{p}/{s}/__init__.py".replace("//", "/") for p in packages for s in [d[len(p) + 1 :] for d in dirs if d.startswith(p + "/")] if rng.random() < 0.6]
    for _ in range(rng.randint(1, 6)):
        d = rng.choice(dirs)
        todo.append(os.path.join(d, rng.choice(["test_a.py", "a_test.py", "main.py", "run_me.py", "Test_B.py", "tests.py", "testing.py", "atest.py", "my test_.py", "data_TEST.PY.py", "__main__.py", "conftest.py"])))
    # Modules further down are not the project's own names, even if they are called like a package that is imported
    for d in dirs[1:]:
        if rng.random() < 0.2:
            todo.append(os.path.join(d, rng.choice(THIRD + list(RENAMED)) + ".py"))
            obs.count("namesakes")
    for fn in dict.fromkeys(todo):
        deps: set[str] = set()
        path = os.path.join(root, fn)
        is_own_decl = fn.endswith("__init__.py") or (os.sep not in fn and fn[:-3] in modules)
        if rng.random() < 0.07 and not is_own_decl:
            data = broken(rng)
            obs.count("broken_files")
            if data is None:
                os.makedirs(path)
            else:
                with open(path, "wb") as f:
                    f.write(data)
            bad.add(fn)
            continue
        lines = g.block(deps, 0)
        if rng.random() < 0.02:
            lines += [f"v{n} = 'import fakepkg'" for n in range(rng.choice([60, 300, 3000]))] + g.block(deps, 0)
            obs.count("long_files")
        with open(path, "wb") as f:
            f.write(encode(rng, lines, obs))
        files[fn] = deps
        if fn.count("/") > 1:
            obs.count("deep_files")
    # Files that are not modules
    for fn, text in (("README.md", "import fakepkg"), ("a.pyi", "import fakepkg"), ("b.txt", "import fakepkg"), ("py", "import fakepkg")):
        if rng.random() < 0.3:
            with open(os.path.join(root, rng.choice(dirs), fn), "w") as f:
                f.write(text)
    if rng.random() < 0.1:
        os.symlink(os.path.join(root, "nowhere.py"), os.path.join(root, "dangling.py"))
        bad.add("dangling.py")
    # Own modules that only the generator knows to be defined at the top
    top_modules = {fn[:-3] for fn in files if "/" not in fn}
    run: set[str] = set()
    test: set[str] = set()
    for fn, deps in files.items():
        base = os.path.basename(fn).lower()
        kept = {d for d in deps if not any(d == RENAMED.get(m, m).lower() for m in own | top_modules)}
        (test if base.startswith("test_") or base.endswith("_test.py") else run).update(kept)
    if run & test:
        obs.count("run_and_test")
    if test - run:
        obs.count("test_only")
    want = {(d, "RUN") for d in run} | {(d, "TESTS") for d in test - run} | {("python", "HOST"), ("python", "RUN")}
    obs.data(tree={fn: Path(root, fn).read_bytes().decode("latin-1") for fn in files}, bad=sorted(bad))
    before = snapshot(root)
    events: list[str] = []

    def listen(event: str, args: tuple[Any, ...]) -> None:
        if event == "open" and isinstance(args[0], (str, bytes, os.PathLike)):
            p = os.fsdecode(args[0])
            if isinstance(args[1], str) and any(c in args[1] for c in "wax+"):
                events.append(f"write {p}")
        elif event in ("subprocess.Popen", "os.system", "os.exec", "os.fork", "socket.connect", "shutil.rmtree", "os.remove", "os.mkdir") or (event == "exec" and args[0].co_filename.startswith(root)):
            events.append(event)
        elif event == "import" and args[0].split(".")[0] in ("fakepkg", *THIRD, *RENAMED) and args[0].split(".")[0] not in sys.modules:
            events.append(f"import {args[0]}")

    CONTAINMENT.listeners.append(listen)
    try:
        scanner = PythonDependencyScanner(rng.choice([Path(root), root, root + "/"]))
        got_deps = scanner.scan()
    finally:
        CONTAINMENT.listeners.remove(listen)
    if events:
        raise Violation(f"scanning had side effects: {events[:5]}", "side effects")
    if snapshot(root) != before:
        raise Violation("scanning changed the project", "changed files")
    got = [(str(d.data.name).lower(), d.type.name) for d in got_deps]
    if len(got) != len(set(got)):
        raise Violation(f"reported more than once: {sorted(x for x in got if got.count(x) > 1)}", "duplicates")
    if set(got) != want:
        raise Violation(f"missing {sorted(want - set(got))}, unexpected {sorted(set(got) - want)}", "missing" if want - set(got) else "unexpected")
    del DependencySection
    msgs = scanner.get_message_table().get_messages(MessageCategory.EXCEPTION)
    for fn in bad:
        if sum(os.path.join(root, fn) in m for m in msgs) != 1:
            raise Violation(f"the file {fn} that can't be read has {sum(fn in m for m in msgs)} messages: {msgs}", "messages")
    if len(msgs) != len(bad) or any(scanner.get_message_table().get_message_count(c) for c in MessageCategory if c != MessageCategory.EXCEPTION):
        raise Violation(f"{len(msgs)} messages for {len(bad)} broken files: {msgs}", "messages")
    if rng.random() < 0.1:
        if scanner.scan() != got_deps or PythonDependencyScanner(root).scan() != got_deps:
            raise Violation("a second scan gives another result", "rescan")
        obs.count("rescans")
    if len(run | test) >= 3:
        obs.distinct(sorted(want))
        obs.sample({"files": len(files), "reported": sorted(want)[:6]}, 2)


def snapshot(root: str) -> dict[str, Any]:
    out: dict[str, Any] = {}
    for d, _, fs in os.walk(root):
        out[d] = None
        for f in fs:
            p = os.path.join(d, f)
            out[p] = os.readlink(p) if os.path.islink(p) else Path(p).read_bytes()
    return out
