"""Recipes with sources on the loopback server, for the checks of bump-recipe."""

from __future__ import annotations

import ast
import hashlib
import os
import random
import re
from dataclasses import dataclass, field
from typing import Any, Optional

from lib import recipes as R
from lib import web

HASH_VARS = ["sha256", "hash", "hash_val", "hash_value"]


@dataclass
class Source:
    path: str  # recipe path of the source object
    url: str  # request path, with the version as "@V@" where it depends on it
    archives: dict[str, bytes] = field(default_factory=dict)
    has_sha: bool = True


@dataclass
class Bumpable:
    doc: R.Doc
    text: str
    v1: bool
    version: str
    build: Any  # int, None (no number), "jinja", "text", "nobuild"
    version_style: str  # var | literal | missing
    sources: list[Source] = field(default_factory=list)
    git_sources: int = 0
    hash_var: str = ""


def archive(rng: random.Random) -> bytes:
    ms = [web.Member("p/a.txt", rng.randbytes(rng.randint(5, 60)))]
    return web.pack_tar(ms, rng, "gz") if rng.random() < 0.7 else web.pack_zip(ms, rng, "deflated")


def make(rng: random.Random, srv: web.Server, new_version: str, max_sources: int = 4) -> Bumpable:
    v1 = rng.random() < 0.35
    doc = R.recipe_v0(rng, com=rng.choice([0.0, 0.15]))
    version = R.version(rng) + ".0"
    o, c = ("${{ ", " }}") if v1 else ("{{ ", " }}")
    doc.variables.pop("build_number", None)
    doc.variables["version"] = version
    style = "var" if rng.random() < 0.75 else "literal"
    b = Bumpable(doc, "", v1, version, 0, style)
    pkg: R.Map = doc.root.get("package")
    if style == "literal":
        doc.variables.pop("version")
        if rng.random() < 0.15:
            b.version_style = "missing"
            pkg.entries = [e for e in pkg.entries if e.key != "version"]
        else:
            pkg.entry("version").value = R.plain(version)
    # Sources
    n = rng.choice([0, 1, 1, 1, 1, 2, 3, max_sources])
    as_list = n > 1 or (n == 1 and rng.random() < 0.3)
    maps: list[Any] = []
    n_hash_vars = rng.choice([0, 0, 0, 1, 1, 2])
    hvars = rng.sample(HASH_VARS, n_hash_vars)
    for h in hvars:
        doc.variables[h] = R.sha256(rng)
    for k in range(n):
        m = R.Map([])
        p = f"/source/{k}" if as_list else "/source"
        if rng.random() < 0.15:
            m.entries.append(R.Entry("git" if v1 else "git_url", R.plain("https://example.org/x.git")))
            m.entries.append(R.Entry("tag" if v1 else "git_tag", R.plain("vx")))
            b.git_sources += 1
            maps.append(m)
            continue
        dep = style == "var" and rng.random() < 0.85
        vtext = f"{o}version{c}" if dep else "fixed"
        fname = rng.choice(["src", "pkg-1.0"]) + f"{k}.tar.gz"
        path = f"/{k}/{vtext}/{fname}"
        t = srv.base + path
        m.entries.append(R.Entry("url", R.Sc(t, t)))
        s = Source(p, f"/{k}/{'@V@' if dep else 'fixed'}/{fname}")
        same = rng.random() < 0.1 and b.sources
        for v in {version, new_version} if dep else {"fixed"}:
            s.archives[v] = b.sources[0].archives.get(v, archive(rng)) if same else archive(rng)
        if rng.random() < 0.85:
            if hvars and rng.random() < 0.7:
                h = f"{o}{rng.choice(hvars)}{c}"
                b.hash_var = h.strip("${} ")
                m.entries.append(R.Entry("sha256", R.Sc(h, h)))
            else:
                m.entries.append(R.Entry("sha256", R.plain(R.sha256(rng))))
        else:
            s.has_sha = False
            if rng.random() < 0.5:
                m.entries.append(R.Entry("md5", R.plain("d" + R.sha256(rng)[:30] + "a")))
        if rng.random() < 0.3:
            m.entries.append(R.Entry("folder", R.plain("f_" + R.word(rng))))
        b.sources.append(s)
        maps.append(m)
    doc.root.entries = [e for e in doc.root.entries if not (isinstance(e, R.Entry) and e.key == "source")]
    if n:
        at = next(k for k, e in enumerate(doc.root.entries) if isinstance(e, R.Entry) and e.key == "build")
        doc.root.entries.insert(at, R.Entry("source", R.Seq(maps) if as_list else maps[0]))
    # Build number
    build: R.Map = doc.root.get("build")
    build.entries = [e for e in build.entries if not (isinstance(e, R.Entry) and e.key == "number")]
    r = rng.random()
    if r < 0.7:
        b.build = rng.choice([0, 1, 9, 10, 99, 100, rng.randrange(3000)])
        com = rng.choice(["", "", "# why"])
        build.entries.insert(rng.choice([0, len(build.entries)]), R.Entry("number", R.Sc(b.build, str(b.build), com)))
    elif r < 0.8:
        b.build = "jinja"
        doc.variables["build_number"] = 3
        t = f"{o}build_number{c}"
        build.entries.insert(0, R.Entry("number", R.Sc(t, t)))
    elif r < 0.85:
        b.build = "text"
        build.entries.insert(0, R.Entry("number", R.Sc("7", '"7"')))
    elif r < 0.92:
        b.build = None
        if not any(isinstance(e, R.Entry) for e in build.entries):
            build.entries.append(R.Entry("noarch", R.plain("python")))
    else:
        b.build = "nobuild"
        doc.root.entries = [e for e in doc.root.entries if not (isinstance(e, R.Entry) and e.key == "build")]
    if v1:
        doc.schema = 1
        ctx = R.Map([R.Entry(k, _v1_scalar(v)) for k, v in doc.variables.items()])
        _to_v1(doc.root)
        doc.root.entries.insert(0, R.Entry("schema_version", R.Sc(1, "1")))
        doc.root.entries.insert(1, R.Entry("context", ctx))
        b.text = R.emit(doc)
    else:
        b.text = R.emit(doc)
        if rng.random() < 0.1 and not hvars and "sha256: " in b.text:
            b.text = "{% set hash_type = \"sha256\" %}\n" + re.sub(r"(?m)^(\s*(?:- )?)sha256: ", r"\1{{ hash_type }}: ", b.text)
    return b


def _v1_scalar(v: Any) -> R.Sc:
    import json

    return R.Sc(v, json.dumps(v)) if isinstance(v, str) else R.Sc(v, str(v))


def _to_v1(v: Any) -> None:
    """`{{ x }}` -> `${{ x }}` in every scalar."""
    if isinstance(v, R.Map):
        for e in v.entries:
            if isinstance(e, R.Entry):
                _to_v1(e.value)
    elif isinstance(v, R.Seq):
        for it in v.items:
            _to_v1(it)
    elif isinstance(v, R.Sc):
        v.text = re.sub(r"(?<!\$)\{\{", "${{", v.text)
        if isinstance(v.value, str):
            v.value = re.sub(r"(?<!\$)\{\{", "${{", v.value)


def serve(b: Bumpable, srv: web.Server) -> None:
    for s in b.sources:
        for v, body in s.archives.items():
            srv.script[s.url.replace("@V@", v)] = [web.Reply(200, body)]


def sha_of(s: Source, version: str) -> str:
    return hashlib.sha256(s.archives[version] if version in s.archives else s.archives["fixed"]).hexdigest()


def variables(text: str, v1: bool) -> dict[str, Any]:
    if v1:
        return dict(R.yaml_oracle(text).get("context") or {})
    return {m.group(1): ast.literal_eval(m.group(2)) for m in re.finditer(r"(?m)^\{% set (\w+) = (.*) %\}$", text)}


def subst(obj: Any, var: dict[str, Any]) -> Any:
    """Effective values: plain variables and |lower."""
    if isinstance(obj, dict):
        return {k: subst(v, var) for k, v in obj.items()}
    if isinstance(obj, list):
        return [subst(v, var) for v in obj]
    if not isinstance(obj, str):
        return obj

    def one(m: Any) -> str:
        name, flt = m.group(1), m.group(2)
        if name not in var:
            return str(m.group(0))
        return str(var[name]).lower() if flt else str(var[name])

    return re.sub(r"\$?\{\{\s*(\w+)\s*(\|\s*lower)?\s*\}\}", one, obj)


def effective(text: str, v1: bool) -> Any:
    o = R.strip_nl(R.yaml_oracle(text))
    o.pop("context", None)
    return subst(o, variables(text, v1))


def run_cli(args: list[str]) -> Any:
    import logging

    from click.testing import CliRunner

    from conda_recipe_manager.commands import bump_recipe

    logging.disable(logging.CRITICAL)
    return CliRunner().invoke(bump_recipe.bump_recipe, args)


def write(path: str, text: str) -> None:
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def read(path: str) -> bytes:
    with open(path, "rb") as f:
        return f.read()
